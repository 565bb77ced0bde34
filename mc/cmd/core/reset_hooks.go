//go:build hooks

package main

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/protolambda/zssz/verifhook"
)

// varState is the state of everything reachable from the module's package-level variables, to start each
// execution from the same state.
type varState struct {
	undo []func()
	seen map[varKey]bool
}

type varKey struct {
	p unsafe.Pointer
	t reflect.Type
}

func saveVars() *varState {
	s := &varState{seen: map[varKey]bool{}}
	for _, p := range verifhook.Vars {
		s.mem(reflect.ValueOf(p).Elem())
	}
	return s
}

func (s *varState) restore() {
	for _, f := range s.undo {
		f()
	}
}

func ourType(t reflect.Type) bool {
	return t.PkgPath() == "" || strings.HasPrefix(t.PkgPath(), "github.com/protolambda/zssz")
}

// mem saves an addressable piece of memory and what it refers to.
func (s *varState) mem(v reflect.Value) {
	k := varKey{v.Addr().UnsafePointer(), v.Type()}
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	v = reflect.NewAt(v.Type(), k.p).Elem()
	cp := reflect.New(v.Type()).Elem()
	cp.Set(v)
	s.undo = append(s.undo, func() { v.Set(cp) })
	s.refs(v)
}

func (s *varState) refs(v reflect.Value) {
	if pointerFree(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && ourType(v.Type().Elem()) {
			s.mem(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			s.refs(v.Elem())
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		k := varKey{full.Index(0).Addr().UnsafePointer(), reflect.ArrayOf(v.Cap(), v.Type().Elem())}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		full = reflect.NewAt(k.t, k.p).Elem()
		cp := reflect.New(k.t).Elem()
		cp.Set(full)
		s.undo = append(s.undo, func() { full.Set(cp) })
		if !pointerFree(v.Type().Elem()) {
			for i := 0; i < full.Len(); i++ {
				s.refs(full.Index(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := varKey{v.UnsafePointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		var ks, vs []reflect.Value
		for it := v.MapRange(); it.Next(); {
			ks, vs = append(ks, it.Key()), append(vs, it.Value())
		}
		s.undo = append(s.undo, func() {
			v.Clear()
			for i := range ks {
				v.SetMapIndex(ks[i], vs[i])
			}
		})
		for i := range vs {
			s.refs(ks[i])
			s.refs(vs[i])
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !ourType(v.Type()) {
				return
			}
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			} else {
				continue
			}
			s.refs(f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.refs(v.Index(i))
		}
	}
}
