package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// typ is one type under check with its reference schema and the library's definition.
type typ struct {
	universe.Entry
	S *model.Schema
	D types.SSZ
}

func build(c *rt.Ctx, e universe.Entry) *typ {
	s, err := model.FromType(e.T)
	if err != nil {
		panic("harness: " + err.Error())
	}
	mk := types.SSZFactory
	if isDyn(e) {
		if dynCached(e) {
			panic(rt.SkipUnit{})
		}
		mk = uncached
	}
	d, err := mk(e.T)
	if err != nil {
		c.Case(func() string { return "building the definition of " + e.Name })
		c.Fail("no definition for a supported type: %v", err)
	}
	return &typ{e, s, d}
}

// uncached builds definitions as the library does, but without SSZFactory, which may hand out what it built before: the
// limits of the dynamic types change.
func uncached(t reflect.Type) (types.SSZ, error) { return types.DefaultSSZFactory(uncached, t) }

var dynCache = map[reflect.Type]bool{}

// dynCached says whether the library keeps what it learned about the type although its limit changes, as it may:
// limits are constants everywhere but here. The units with changing limits are then left out.
func dynCached(e universe.Entry) bool {
	if cached, ok := dynCache[e.T]; ok {
		return cached
	}
	old := universe.DynLimit
	defer func() { universe.DynLimit = old }()
	max := func(lim uint64) uint64 {
		universe.DynLimit = lim
		d, err := uncached(e.T)
		if err != nil {
			return lim
		}
		return d.MaxLen()
	}
	a, b := max(3), max(300)
	dynCache[e.T] = a == b
	return a == b
}

func vdesc(t *typ, v *model.Val) func() string {
	return func() string { return "value " + v.String() }
}

func hexs(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x..(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var shaFn = htr.HashFn(sha256.Sum256)
var shaModel = model.NewMerkler(func(b []byte) [32]byte { return sha256.Sum256(b) })

// entry points used everywhere
func encode(t *typ, p reflect.Value) ([]byte, int, error) {
	var w bytes.Buffer
	n, err := zssz.Encode(&w, p.Interface(), t.D)
	return w.Bytes(), n, err
}

func decodeInto(t *typ, p reflect.Value, d []byte) error {
	return zssz.Decode(bytes.NewReader(d), uint64(len(d)), p.Interface(), t.D)
}

func fresh(t *typ) reflect.Value { return reflect.New(t.T) }

// plainReader hides every method but Read.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

func perType(es []universe.Entry, f func(c *rt.Ctx, t *typ)) []rt.Unit {
	us := make([]rt.Unit, len(es))
	for i, e := range es {
		us[i] = rt.Unit{Name: e.Name, Run: func(c *rt.Ctx) { f(c, build(c, e)) }}
	}
	if rt.Deep { // every container of four fields of the pool
		for _, a := range universe.FieldPool {
			for _, b := range universe.FieldPool {
				us = append(us, rt.Unit{Name: "structs of four fields: " + a.Name + ";" + b.Name + ";..", Run: func(c *rt.Ctx) {
					for _, x := range universe.FieldPool {
						for _, y := range universe.FieldPool {
							c.Fresh()
							f(c, build(c, universe.StructOf(a, b, x, y)))
						}
					}
				}})
			}
		}
	}
	return us
}

// standard type sets
func typesFor(quick bool) []universe.Entry {
	var es []universe.Entry
	es = append(es, universe.All(4)...)
	es = append(es, universe.Wide()...)
	es = append(es, universe.Tall()...)
	es = append(es, universe.Long()...)
	es = append(es, universe.Deepest()...)
	if quick {
		es = append(es, universe.Containers(universe.FieldPool, 2)...)
	} else {
		es = append(es, universe.Containers(universe.FieldPool, 2)...)
		es = append(es, universe.Containers(universe.Rep, 3)...)
		es = append(es, universe.Containers(universe.FieldPool[8:14], 4)...)
		if rt.Deep {
			es = append(es, universe.Containers(universe.FieldPool, 3)...)
			es = append(es, universe.Containers(universe.Rep, 4)...)
		}
	}
	return dedup(es)
}

// heavyTypes is the set for checks with many executions per type: fewer of the wide and tall types in the quick tier.
func heavyTypes(quick bool) []universe.Entry {
	es := typesFor(quick)
	if !quick {
		return es
	}
	var out []universe.Entry
	nth := map[string]int{"wide": 5, "tall": 4, "long": 6, "deep": 4}
	cnt := map[string]int{}
	for _, e := range es {
		k := strings.SplitN(e.Name, " ", 2)[0]
		cnt[k]++
		if n := nth[k]; n > 0 && cnt[k]%n != 2 {
			continue
		}
		out = append(out, e)
	}
	return out
}

func dedup(es []universe.Entry) []universe.Entry {
	seen := map[reflect.Type]bool{}
	var out []universe.Entry
	for _, e := range es {
		if !seen[e.T] {
			seen[e.T] = true
			out = append(out, e)
		}
	}
	return out
}

func bound(quick bool) *model.Bound {
	b := model.ThoroughBound()
	if quick {
		b = model.QuickBound()
	} else if rt.Deep {
		b = model.DeepBound()
	}
	return &b
}

// forValues enumerates the values of a type within the bound, each once.
func forValues(c *rt.Ctx, t *typ, b *model.Bound, f func(v *model.Val, ser []byte)) {
	model.Values(t.S, b, func(v *model.Val) bool {
		ser := model.Ser(t.S, v)
		if c.First(ser) {
			c.State()
			f(v, ser)
		}
		return true
	})
}

func fromGo(t *typ, p reflect.Value) string {
	v, err := model.FromGo(t.S, p.Elem())
	if err != nil {
		return err.Error()
	}
	return v.String()
}

// valueBytes renders the value held by a destination canonically (or its ill-formedness).
func valueBytes(t *typ, p reflect.Value) []byte {
	v, err := model.FromGo(t.S, p.Elem())
	if err != nil {
		return []byte("ill-formed: " + err.Error())
	}
	return model.Ser(t.S, v)
}

// leafType is the Go type of field i of a container (through squashed levels).
func leafType(t *typ, i int) reflect.Type {
	rt := t.T
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	for _, k := range t.S.Fields[i].Path {
		rt = rt.Field(k).Type
	}
	return rt
}

func factory(t reflect.Type) (types.SSZ, error) { return types.SSZFactory(t) }

func entryOf(t reflect.Type) universe.Entry { return universe.Entry{Name: t.String(), T: t} }
