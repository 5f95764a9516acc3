// Package state keeps track of the package-level variables of an instrumented
// copy of the library: the memory reachable from them can be compared with a
// snapshot and put back.
package state

import (
	"fmt"
	"reflect"
	"unsafe"
)

type variable struct {
	name string
	v    reflect.Value // pointer to the variable
}

type region struct {
	name string
	p    unsafe.Pointer
	was  []byte
}

type mapState struct {
	name string
	v    reflect.Value // the map
	was  map[interface{}]interface{}
}

var (
	vars    []variable
	regions []region
	maps    []mapState
	keep    []interface{}
	Opaque  []string // variables with parts that cannot be tracked
)

// Register is called by the instrumented packages' init functions.
func Register(name string, p interface{}) { vars = append(vars, variable{name, reflect.ValueOf(p)}) }

func Count() int { return len(vars) }

// Names lists the registered variables.
func Names() (ns []string) {
	for _, v := range vars {
		ns = append(ns, v.name)
	}
	return
}

// Snapshot records everything reachable now.
func Snapshot() {
	regions, maps, keep, Opaque = nil, nil, nil, nil
	seen := map[unsafe.Pointer]uintptr{}
	for _, v := range vars {
		walkMem(v.name, v.v.UnsafePointer(), v.v.Type().Elem(), 1, seen)
	}
}

func walkMem(name string, p unsafe.Pointer, t reflect.Type, n int, seen map[unsafe.Pointer]uintptr) {
	size := t.Size() * uintptr(n)
	if p == nil || size == 0 || seen[p] >= size || len(seen) > 100000 {
		return
	}
	seen[p] = size
	mem := unsafe.Slice((*byte)(p), size)
	regions = append(regions, region{name, p, append([]byte{}, mem...)})
	keep = append(keep, p)
	if flat(t) {
		return
	}
	for k := 0; k < n; k++ {
		walkVal(name, reflect.NewAt(t, unsafe.Add(p, uintptr(k)*t.Size())).Elem(), seen)
	}
}

// flat types hold no references.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.String:
		return false
	}
	return true
}

func opaque(name, what string) {
	s := name + " (" + what + ")"
	for _, o := range Opaque {
		if o == s {
			return
		}
	}
	Opaque = append(Opaque, s)
}

func walkVal(name string, v reflect.Value, seen map[unsafe.Pointer]uintptr) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walkMem(name, v.UnsafePointer(), v.Type().Elem(), 1, seen)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			walkMem(name, v.UnsafePointer(), v.Type().Elem(), v.Cap(), seen)
		}
	case reflect.Array:
		if !flat(v.Type()) {
			for i := 0; i < v.Len(); i++ {
				walkVal(name, v.Index(i), seen)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walkVal(name, v.Field(i), seen)
		}
	case reflect.Interface:
		e := v.Elem()
		if !e.IsValid() {
			return
		}
		switch e.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			walkVal(name, e, seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		was := map[interface{}]interface{}{}
		if !v.CanInterface() {
			opaque(name, "map in an unexported field")
			return
		}
		it := v.MapRange()
		for it.Next() {
			was[it.Key().Interface()] = it.Value().Interface()
			walkVal(name, it.Value(), seen)
		}
		maps = append(maps, mapState{name, v, was})
	case reflect.Func:
		if !v.IsNil() && v.Type().NumIn() >= 0 {
			// a closure's variables cannot be seen; a plain function has none
			keep = append(keep, v)
		}
	case reflect.Chan:
		if !v.IsNil() {
			opaque(name, "channel")
		}
	case reflect.UnsafePointer:
		if !v.IsNil() {
			opaque(name, "unsafe pointer")
		}
	}
}

// Changed names the first variable whose reachable memory differs.
func Changed() string {
	for i := range regions {
		r := &regions[i]
		if string(unsafe.Slice((*byte)(r.p), len(r.was))) != string(r.was) {
			return r.name
		}
	}
	for _, m := range maps {
		if m.v.Len() != len(m.was) {
			return m.name
		}
		it := m.v.MapRange()
		for it.Next() {
			w, ok := m.was[it.Key().Interface()]
			if !ok || !reflect.DeepEqual(w, it.Value().Interface()) {
				return m.name
			}
		}
	}
	return ""
}

// Restore puts the snapshot back.
func Restore() {
	for i := range regions {
		r := &regions[i]
		copy(unsafe.Slice((*byte)(r.p), len(r.was)), r.was)
	}
	for _, m := range maps {
		for _, k := range m.v.MapKeys() {
			if _, ok := m.was[k.Interface()]; !ok {
				m.v.SetMapIndex(k, reflect.Value{})
			}
		}
		for k, v := range m.was {
			rv := reflect.ValueOf(v)
			if !rv.IsValid() {
				rv = reflect.Zero(m.v.Type().Elem())
			}
			m.v.SetMapIndex(reflect.ValueOf(k), rv)
		}
	}
}

// Hash identifies the current state: the regions of the snapshot plus the
// current shape of what the variables reach.
func Hash() uint64 {
	h := hasher{h: 14695981039346656037, seen: map[unsafe.Pointer]int{}}
	for _, v := range vars {
		h.val(v.v.Elem())
	}
	return h.h
}

type hasher struct {
	h    uint64
	seen map[unsafe.Pointer]int
}

func (h *hasher) b(p []byte) {
	for _, x := range p {
		h.h = (h.h ^ uint64(x)) * 1099511628211
	}
}
func (h *hasher) u(x uint64) { h.h = (h.h ^ x) * 1099511628211; h.h ^= h.h >> 29 }

func (h *hasher) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.u(1)
		} else {
			h.u(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.u(v.Uint())
	case reflect.String:
		h.b([]byte(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			h.u(0)
			return
		}
		p := v.UnsafePointer()
		if k, ok := h.seen[p]; ok {
			h.u(uint64(k))
			return
		}
		h.seen[p] = len(h.seen) + 1
		h.val(v.Elem())
	case reflect.Slice, reflect.Array:
		h.u(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h.val(v.Field(i))
		}
	case reflect.Interface:
		if v.IsNil() {
			h.u(0)
		} else {
			h.b([]byte(v.Elem().Type().String()))
			h.val(v.Elem())
		}
	case reflect.Map:
		// order-independent
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			e := hasher{h: 14695981039346656037, seen: h.seen}
			e.val(it.Key())
			e.val(it.Value())
			sum += e.h
		}
		h.u(sum)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		h.u(uint64(v.Pointer()))
	case reflect.Float32, reflect.Float64:
		h.b([]byte(fmt.Sprint(v.Float())))
	}
}
