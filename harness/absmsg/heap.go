package absmsg

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/jart/gosip/sip"
)

// Node is one mutable object of a message's header part.
type Node struct {
	Addr uint64 `json:"-"`
	Size uint64 `json:"-"`
	Path string `json:"path"`
}

// Heap lists the objects reachable from x except payloads.
func Heap(x interface{}) (res []Node) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			res = append(res, Node{uint64(v.Pointer()), uint64(v.Elem().Type().Size()), path})
			walk(v.Elem(), path)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Slice:
			if v.Cap() > 0 && v.Len() > 0 {
				res = append(res, Node{uint64(v.Pointer()), uint64(v.Len()) * uint64(v.Type().Elem().Size()), path})
			}
		case reflect.Map:
			if !v.IsNil() {
				res = append(res, Node{uint64(v.Pointer()), 1, path})
			}
		}
	}
	walk(reflect.ValueOf(x), "")
	return
}

// Shared returns the paths of objects of a that overlap objects of b.
func Shared(a, b []Node) []string {
	res := []string{}
	for _, x := range a {
		for _, y := range b {
			if x.Addr < y.Addr+y.Size && y.Addr < x.Addr+x.Size {
				res = append(res, fmt.Sprintf("%s/%s", x.Path, y.Path))
			}
		}
	}
	return res
}

// A Leaf is a changeable place of a message: a field that can be set.
type Leaf struct {
	Path   string
	Change func()
}

// Leaves lists the changeable places of a message's header part.
func Leaves(x interface{}) (res []Leaf) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		if v.Kind() == reflect.Interface || !v.IsValid() {
			return
		}
		if v.CanAddr() && !v.CanSet() {
			v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
		}
		add := func(f func()) { res = append(res, Leaf{path, f}) }
		switch v.Kind() {
		case reflect.String:
			add(func() { v.SetString(v.String() + "Z") })
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			add(func() { v.SetInt(v.Int() + 1) })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			add(func() { v.SetUint(v.Uint() + 1) })
		case reflect.Bool:
			add(func() { v.SetBool(!v.Bool()) })
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if v.CanSet() {
				add(func() { v.Set(reflect.Zero(v.Type())) })
			}
			walk(v.Elem(), path)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	walk(reflect.ValueOf(x), "")
	return
}

// AbsAny is the abstract form of a message, address list, Via list or URI.
func AbsAny(x interface{}) interface{} {
	switch y := x.(type) {
	case *sip.Msg:
		return AbsMsg(y)
	case *sip.Addr:
		return AbsAddrs(y)
	case *sip.Via:
		return AbsVias(y)
	case *sip.URI:
		return AbsURI(y)
	}
	panic("unknown type")
}
