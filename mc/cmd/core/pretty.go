package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/maphash"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/protolambda/zssz"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

var prettyIndents = []string{"  ", "", "\t"}

func prettyText(t *typ, indent string, p reflect.Value) string {
	var w bytes.Buffer
	zssz.Pretty(&w, indent, p.Interface(), t.D)
	return w.String()
}

func stripSpace(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

type texts struct {
	seed maphash.Seed
	m    map[uint64]uint64
}

func newTexts() *texts { return &texts{maphash.MakeSeed(), map[uint64]uint64{}} }

// put returns false when the same text already belongs to a different value.
func (x *texts) put(text string, val []byte) bool {
	k, v := maphash.String(x.seed, text), maphash.Bytes(x.seed, val)
	if old, ok := x.m[k]; ok {
		return old == v
	}
	x.m[k] = v
	return true
}

var c25 = &rt.Check{
	ID: "C25", Level: "model_checking",
	Rule: "all types and values of the bound, printed with three indentations, from two independently built Go values (nil and empty lists, different capacities) and again after decoding; texts of different values compared through a text table (hash keyed); every container's text searched for each field name followed by the field's own text, in order, and every list's for its elements' texts; texts of numbers, bools and byte strings read back; all subsets (bounded) of pointers set to nil; long lists to 32769 (131073) elements of 16 kinds with single differences at the usual places; state = distinct (type, value)",
	Units: func(quick bool) []rt.Unit {
		us := perType(typesFor(quick), func(c *rt.Ctx, t *typ) {
			tabs := []*texts{newTexts(), newTexts(), newTexts()}
			var fields []*typ
			if t.S.Kind == model.KCont {
				for i, f := range t.S.Fields {
					ft := leafType(t, i)
					d, err := factory(ft)
					if err != nil {
						c.Case(func() string { return "definition of field " + f.Name })
						c.Fail("no definition: %v", err)
					}
					fields = append(fields, &typ{Entry: entryOf(ft), S: f.S, D: d})
				}
			}
			var elem *typ
			if t.S.Kind == model.KVec || t.S.Kind == model.KList {
				et := t.T
				for et.Kind() == reflect.Ptr {
					et = et.Elem()
				}
				et = et.Elem()
				d, err := factory(et)
				if err != nil {
					c.Case(func() string { return "definition of the elements" })
					c.Fail("no definition: %v", err)
				}
				elem = &typ{Entry: entryOf(et), S: t.S.Elem, D: d}
			}
			forValues(c, t, bound(quick), func(v *model.Val, ser []byte) {
				c.Case(vdesc(t, v))
				p := model.NewGo(t.S, v)
				q := fresh(t)
				emptyNotNil(t.S, v, q.Elem())
				for k, ind := range prettyIndents {
					a := prettyText(t, ind, p)
					c.Trans(2)
					c.Validated(2)
					if b := prettyText(t, ind, q); b != a {
						c.Fail("equal values print as %q and %q", clip(a, 300), clip(b, 300))
					}
					if !tabs[k].put(a, ser) {
						c.Fail("prints like a different value: %q", clip(a, 400))
					}
					if k == 0 && fields != nil {
						checkFields(c, t, fields, v, a, ind)
					}
					if k == 0 && elem != nil {
						checkElems(c, elem, v, a, ind)
					}
					checkLeaf(c, t.S, v, a)
				}
			})
			if fields == nil {
				c.Count("other types", 1)
			}
			nilPointers(c, t, tabs, quick)
		})
		return append(longTexts(quick), us...)
	},
}

// leafRefs lists the places of a value that can be changed.
func leafRefs(s *model.Schema, v *model.Val, out []func()) []func() {
	switch s.Kind {
	case model.KPtr:
		return leafRefs(s.Elem, v, out)
	case model.KBytes, model.KBytesN, model.KBitlist, model.KBitvec:
		for i := range v.B {
			out = append(out, func() { v.B[i] ^= 1 })
		}
	case model.KVec, model.KList:
		for _, e := range v.E {
			out = leafRefs(s.Elem, e, out)
		}
	case model.KCont:
		for i, e := range v.E {
			out = leafRefs(s.Fields[i].S, e, out)
		}
	case model.KBool, model.KUint:
		out = append(out, func() { v.U ^= 1 })
	}
	return out
}

// longTexts: long lists, each with single differences at the usual places, and their neighbours in length.
func longTexts(quick bool) []rt.Unit {
	ns := []uint64{15, 16, 17, 20, 31, 32, 33, 48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 10000, 10001, 16385, 32769}
	if !quick {
		ns = append(ns, 65535, 65536, 65537, 100001, 131073)
	}
	var us []rt.Unit
	for _, e := range universe.Dynamic {
		us = append(us, rt.Unit{Name: "long texts of " + e.Name, Run: func(c *rt.Ctx) {
			universe.DynLimit = 1 << 20
			t := build(c, e)
			tab := newTexts()
			see := func(v *model.Val, n uint64, what string) {
				ser := model.Ser(t.S, v)
				c.State()
				c.Case(func() string { return fmt.Sprintf("%d elements%s: value %s", n, what, clip(v.String(), 200)) })
				c.Trans(1)
				c.Validated(1)
				text := prettyText(t, "", model.NewGo(t.S, v))
				if !tab.put(text, ser) {
					c.Fail("prints like a different value: %q", clip(text, 400))
				}
				checkLeaf(c, t.S, v, text)
			}
			for _, n := range ns {
				for fill := 0; fill < 2; fill++ {
					v := lenVals(t.S, n)[fill]
					see(v, n, "")
					refs := leafRefs(t.S, v, nil)
					l := len(refs)
					at := []int{0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, l / 3, l / 2, l/2 + 1, l - 101, l - 65, l - 33, l - 17, l - 11, l - 10, l - 5, l - 4, l - 3, l - 2, l - 1}
					if fill == 1 || n > 5000 {
						at = []int{0, 10, 100, 1000, l / 2, l - 11, l - 3, l - 1}
					}
					for _, i := range at {
						if i >= 0 && i < l {
							refs[i]()
							see(v, n, fmt.Sprintf(", leaf %d changed", i))
							refs[i]()
						}
					}
				}
			}
		}})
	}
	return us
}

// checkFields: every field name followed by the field's own text, in order.
func checkFields(c *rt.Ctx, t *typ, fields []*typ, v *model.Val, text, ind string) {
	rest := stripSpace(text)
	for i, f := range t.S.Fields {
		k := strings.Index(rest, f.Name)
		if k < 0 {
			c.Fail("field %s is missing (or out of order) in %q", f.Name, clip(text, 400))
		}
		rest = rest[k+len(f.Name):]
		ft := stripSpace(prettyText(fields[i], ind, model.NewGo(f.S, v.E[i])))
		k = strings.Index(rest, ft)
		if k < 0 {
			c.Fail("the value %s of field %s is missing (or out of order) in %q", ft, f.Name, clip(text, 400))
		}
		rest = rest[k+len(ft):]
		c.Trans(1)
		c.Validated(1)
	}
}

// checkElems: every element's own text, in order.
func checkElems(c *rt.Ctx, elem *typ, v *model.Val, text, ind string) {
	rest := stripSpace(text)
	for i, e := range v.E {
		et := stripSpace(prettyText(elem, ind, model.NewGo(elem.S, e)))
		k := strings.Index(rest, et)
		if k < 0 {
			c.Fail("element %d (%s) is missing (or out of order) in %q", i, et, clip(text, 400))
		}
		rest = rest[k+len(et):]
		c.Trans(1)
		c.Validated(1)
	}
}

// checkLeaf: the text of a number reads as that number, that of a bool as that bool, that of bytes holds their digits.
func checkLeaf(c *rt.Ctx, s *model.Schema, v *model.Val, text string) {
	text = strings.ToLower(stripSpace(text))
	ok := true
	switch s.Kind {
	case model.KUint:
		u, err := strconv.ParseUint(text, 0, 64)
		ok = err == nil && u == v.U
	case model.KBool:
		b, err := strconv.ParseBool(text)
		ok = err == nil && b == (v.U != 0)
	case model.KBytes, model.KBytesN:
		ok = strings.Contains(text, hex.EncodeToString(v.B))
	}
	if !ok {
		c.Fail("prints as %q", clip(text, 400))
	}
}

// emptyNotNil writes v with empty lists that are not nil and with spare capacity.
func emptyNotNil(s *model.Schema, v *model.Val, rv reflect.Value) {
	model.ToGo(s, v, rv)
	respare(rv)
}

func respare(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			respare(rv.Elem())
		}
	case reflect.Slice:
		n := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len()+3)
		reflect.Copy(n, rv)
		if rv.CanSet() {
			rv.Set(n)
		}
		for i := 0; i < rv.Len() && i < 50; i++ {
			respare(rv.Index(i))
		}
	case reflect.Array:
		for i := 0; i < rv.Len() && i < 50; i++ {
			respare(rv.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Field(i).CanSet() {
				respare(rv.Field(i))
			}
		}
	}
}

// pointers collects the settable pointers below rv.
func pointers(rv reflect.Value, out *[]reflect.Value) {
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.CanSet() {
			*out = append(*out, rv)
		}
		if !rv.IsNil() {
			pointers(rv.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len() && i < 20; i++ {
			pointers(rv.Index(i), out)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if tag := rv.Type().Field(i).Tag.Get("ssz"); strings.Contains(","+tag+",", ",omit,") {
				continue
			}
			pointers(rv.Field(i), out)
		}
	}
}

// nilPointers prints values with subsets of their pointers set to nil.
func nilPointers(c *rt.Ctx, t *typ, tabs []*texts, quick bool) {
	b := model.SmallBound()
	shapes := model.Shapes(t.S, &b, 0)
	if len(shapes) > 8 {
		shapes = append(shapes[:4:4], shapes[len(shapes)-4:]...)
	}
	for _, sh := range shapes {
		v := model.Filled(t.S, sh, model.FillCount)
		var ps []reflect.Value
		base := model.NewGo(t.S, v)
		pointers(base.Elem(), &ps)
		n := min(len(ps), 6)
		if n == 0 {
			continue
		}
		seen := map[string]bool{}
		for mask := 1; mask < 1<<n; mask++ {
			build := func() (reflect.Value, string) {
				p := model.NewGo(t.S, v)
				var ps []reflect.Value
				pointers(p.Elem(), &ps)
				for i := n - 1; i >= 0; i-- {
					if mask>>i&1 == 1 {
						ps[i].SetZero()
					}
				}
				// pointers hidden below a nil pointer do not distinguish values
				return p, deepText(p.Elem())
			}
			p, key := build()
			if seen[key] {
				continue
			}
			seen[key] = true
			c.State()
			c.Case(func() string { return fmt.Sprintf("%s with nil pointers %b", v, mask) })
			q, _ := build()
			for k, ind := range prettyIndents {
				a := prettyText(t, ind, p)
				c.Trans(2)
				c.Validated(2)
				if b := prettyText(t, ind, q); a != b {
					c.Fail("equal values print as %q and %q", clip(a, 300), clip(b, 300))
				}
				if !tabs[k].put(a, []byte("nil:"+key)) {
					c.Fail("prints like a different value: %q", clip(a, 400))
				}
			}
		}
	}
}

// deepText is an own unambiguous rendering of a Go value with its nil pointers.
func deepText(rv reflect.Value) string {
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			return "nil"
		}
		if x := deepText(rv.Elem()); x != "nil" {
			return "&" + x
		}
		return "nil" // a missing value, at whatever level
	case reflect.Slice, reflect.Array:
		s := "["
		for i := 0; i < rv.Len(); i++ {
			s += deepText(rv.Index(i)) + " "
		}
		return s + "]"
	case reflect.Struct:
		s := "{"
		for i := 0; i < rv.NumField(); i++ {
			s += deepText(rv.Field(i)) + ";"
		}
		return s + "}"
	case reflect.Bool:
		return fmt.Sprint(rv.Bool())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(rv.Uint())
	}
	return "?"
}
