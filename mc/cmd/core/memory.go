package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// region is memory around (or inside, for padding) a value that no operation may touch.
type region struct {
	p    unsafe.Pointer
	n    uintptr
	fill byte
	what string
}

type guards struct {
	rs   []region
	keep []reflect.Value
	base []unsafe.Pointer
	size []uintptr
}

func (g *guards) add(p unsafe.Pointer, n uintptr, fill byte, what string) {
	b := unsafe.Slice((*byte)(p), n)
	for i := range b {
		b[i] = fill
	}
	g.rs = append(g.rs, region{p, n, fill, what})
}

func (g *guards) check() error {
	for _, r := range g.rs {
		b := unsafe.Slice((*byte)(r.p), r.n)
		for i, x := range b {
			if x != r.fill {
				return fmt.Errorf("byte %d of the memory %s was overwritten with %#x", i, r.what, x)
			}
		}
	}
	return nil
}

func pointerFree(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Chan, reflect.String, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Array:
		return t.Len() == 0 || pointerFree(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !pointerFree(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

const gfill = 0xA5

var guardedTypes = map[reflect.Type]reflect.Type{}

// guardedNew allocates one t with guard memory on both sides.
func (g *guards) guardedNew(t reflect.Type) reflect.Value {
	gt, ok := guardedTypes[t]
	if !ok {
		gt = reflect.StructOf([]reflect.StructField{
			{Name: "Pre", Type: reflect.TypeFor[[64]byte]()},
			{Name: "V", Type: t},
			{Name: "Post", Type: reflect.TypeFor[[72]byte]()},
		})
		guardedTypes[t] = gt
	}
	p := reflect.New(gt)
	g.keep = append(g.keep, p)
	base := p.UnsafePointer()
	f := gt.Field(1)
	g.add(base, f.Offset, gfill, "before the object")
	g.add(unsafe.Add(base, f.Offset+t.Size()), gt.Size()-f.Offset-t.Size(), gfill, "after the object")
	return p.Elem().Field(1).Addr()
}

// fillGo writes v into rv like model.ToGo, but every slice is cut out of a larger array with guard elements around its
// capacity (spare elements of it hold rubbish), and every pointee has guards.
func (g *guards) fillGo(s *model.Schema, v *model.Val, rv reflect.Value, spare int) {
	switch s.Kind {
	case model.KBytes, model.KBitlist, model.KList:
		tmp := model.NewGo(s, v).Elem()
		n := tmp.Len()
		const side = 4
		et := rv.Type().Elem()
		buf := reflect.MakeSlice(rv.Type(), side+n+spare+side, side+n+spare+side)
		g.keep = append(g.keep, buf)
		fill := byte(gfill)
		if !pointerFree(et) {
			fill = 0
		}
		base, es := buf.UnsafePointer(), et.Size()
		if es > 0 {
			g.add(base, es*side, fill, "before a slice")
			g.add(unsafe.Add(base, es*uintptr(side+n+spare)), es*side, fill, "beyond a slice's capacity")
			if fill != 0 && et.Kind() != reflect.Bool && !hasBool(et) {
				b := unsafe.Slice((*byte)(unsafe.Add(base, es*uintptr(side+n))), es*uintptr(spare))
				for i := range b {
					b[i] = 0x99
				}
			}
		}
		for i := 0; i < n; i++ {
			if s.Kind == model.KList {
				g.fillGo(s.Elem, v.E[i], buf.Index(side+i), spare)
			} else {
				buf.Index(side + i).Set(tmp.Index(i))
			}
		}
		rv.Set(buf.Slice3(side, side+n, side+n+spare))
	case model.KPtr:
		p := g.guardedNew(rv.Type().Elem())
		g.fillGo(s.Elem, v, p.Elem(), spare)
		rv.Set(p.Convert(rv.Type()))
	case model.KVec:
		for i, e := range v.E {
			g.fillGo(s.Elem, e, rv.Index(i), spare)
		}
	case model.KCont:
		for i, f := range s.Fields {
			fv := rv
			for _, k := range f.Path {
				fv = fv.Field(k)
				if !fv.CanSet() {
					fv = reflect.NewAt(fv.Type(), fv.Addr().UnsafePointer()).Elem()
				}
			}
			g.fillGo(f.S, v.E[i], fv, spare)
		}
	default:
		model.ToGo(s, v, rv)
	}
}

func hasBool(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool:
		return true
	case reflect.Array:
		return hasBool(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasBool(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// padding of a struct may legally hold anything, but nothing in the library writes whole structs; it is not checked.

type sinkWriter struct{ n int }

func (w *sinkWriter) Write(p []byte) (int, error) {
	for _, b := range p {
		w.n += int(b)
	}
	return len(p), nil
}

var asan = os.Getenv("MC_ASAN") != ""

var c08 = &rt.Check{
	ID: "C08", Level: "model_checking",
	NoMemLimit:  asan,
	Rule:        "state = distinct (type, destination shape, input); transition = one operation of the real code on memory in which every object, pointee and slice is surrounded by guard memory (and, in the asan variant, by poisoned memory that also detects reads); after each operation all guards are compared and the destination is checked for ill-formed Go values",
	Assumptions: []string{"reads out of bounds are detected in the address-sanitizer build (variant), writes in both"},
	Units: func(quick bool) []rt.Unit {
		lim := 700
		if !quick {
			lim = 8000
		}
		if asan {
			lim = 60
			if !quick {
				lim = 500
			}
		}
		es := typesFor(quick)
		if asan && quick {
			es = dedup(append(universe.All(3), universe.Containers(universe.Rep, 2)...))
		}
		us := perType(es, func(c *rt.Ctx, t *typ) {
			sb := model.SmallBound()
			shapes := model.Shapes(t.S, &sb, 0)
			small := model.Filled(t.S, shapes[min(1, len(shapes)-1)], model.FillOnes)
			large := model.Filled(t.S, shapes[len(shapes)-1], model.FillCount)
			mid := model.Filled(t.S, shapes[len(shapes)/2], model.FillCount)
			type dst struct {
				name string
				mk   func(g *guards) reflect.Value
			}
			zero := dst{"zero destination", func(g *guards) reflect.Value { return g.guardedNew(t.T) }}
			with := func(name string, v *model.Val, spare int) dst {
				return dst{name, func(g *guards) reflect.Value {
					p := g.guardedNew(t.T)
					g.fillGo(t.S, v, p.Elem(), spare)
					return p
				}}
			}
			dsts := []dst{zero, with("small, no spare capacity", small, 0), with("small, spare capacity 1", small, 1), with("middle, spare 2", mid, 2), with("large, spare 3", large, 3)}
			k := 0
			after := func(g *guards, p reflect.Value, what string) {
				c.Validated(1)
				if err := g.check(); err != nil {
					c.Fail("%s: %v", what, err)
				}
				if err := model.WellFormed(t.S, p.Elem()); err != nil {
					c.Fail("%s: %v", what, err)
				}
			}
			claims := func(n uint64) []uint64 { return []uint64{n, n + 1, n / 2} }
			forInputsN(c, t, quick, lim, func(d []byte) {
				k++
				set := dsts
				if asan {
					set = dsts[k%len(dsts) : k%len(dsts)+1]
				}
				in := append([]byte{}, d...)
				for i, ds := range set {
					for ci, claim := range claims(uint64(len(d))) {
						if ci > 0 && (i+k)%5 != 0 {
							continue
						}
						c.Case(func() string { return fmt.Sprintf("decode %s claimed %d into %s", hexs(d), claim, ds.name) })
						g := &guards{}
						p := ds.mk(g)
						err := zssz.Decode(bytes.NewReader(in), claim, p.Interface(), t.D)
						c.Trans(1)
						after(g, p, fmt.Sprintf("decode (%v)", err))
					}
				}
				if !bytes.Equal(in, d) {
					c.Fail("the input was modified")
				}
				// a stream failing half way
				c.Case(func() string { return fmt.Sprintf("decode %s failing after half", hexs(d)) })
				g := &guards{}
				p := dsts[k%len(dsts)].mk(g)
				zssz.Decode(io.MultiReader(bytes.NewReader(in[:len(in)/2]), failReader{}), uint64(len(d)), p.Interface(), t.D)
				c.Trans(1)
				after(g, p, "failing decode")
				if fuzzInDomain(t) && uint64(len(d)) >= t.D.FuzzMinLen() {
					c.Case(func() string { return fmt.Sprintf("fuzz-decode %s into %s", hexs(d), dsts[k%len(dsts)].name) })
					g := &guards{}
					p := dsts[k%len(dsts)].mk(g)
					zssz.DecodeFuzzBytes(bytes.NewReader(in), uint64(len(d)), p.Interface(), t.D)
					c.Trans(1)
					after(g, p, "fuzz decode")
				}
			})
			if fuzzInDomain(t) && t.D.FuzzMinLen() < 2000 {
				for _, extra := range []int{0, 1, 3, 9, 17, 40, 100} {
					for _, fill := range [][]byte{pattern(int(t.D.FuzzMinLen()) + extra), bytes.Repeat([]byte{0xff}, int(t.D.FuzzMinLen())+extra), bytes.Repeat([]byte{2}, int(t.D.FuzzMinLen())+extra)} {
						for _, ds := range dsts {
							c.State()
							c.Case(func() string { return fmt.Sprintf("fuzz-decode %s into %s", hexs(fill), ds.name) })
							g := &guards{}
							p := ds.mk(g)
							zssz.DecodeFuzzBytes(bytes.NewReader(fill), uint64(len(fill)), p.Interface(), t.D)
							c.Trans(1)
							after(g, p, "fuzz decode")
						}
					}
				}
			}
			// reading operations
			b := model.SmallBound()
			b.MaxItems = 300
			vals := 0
			model.Values(t.S, &b, func(v *model.Val) bool {
				vals++
				if vals > 400 {
					return false
				}
				c.State()
				c.Case(func() string { return "reading operations on " + v.String() })
				g := &guards{}
				p := g.guardedNew(t.T)
				g.fillGo(t.S, v, p.Elem(), vals%3)
				w := &sinkWriter{}
				zssz.Encode(w, p.Interface(), t.D)
				zssz.SizeOf(p.Interface(), t.D)
				zssz.HashTreeRoot(shaFn, p.Interface(), t.D)
				zssz.Pretty(w, " ", p.Interface(), t.D)
				c.Trans(4)
				if sg, ok := t.D.(types.SignedSSZ); ok {
					zssz.SigningRoot(shaFn, p.Interface(), sg)
					c.Trans(1)
				}
				after(g, p, "reading operations")
				return true
			})
		})
		return append(farMemory(), append(longMemory(quick), us...)...)
	},
}

type failReader struct{}

func (failReader) Read([]byte) (int, error) { return 0, errInjected }
