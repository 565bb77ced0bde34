package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// layout of struct fields: a leaf, or a group that is squashed or embedded into its parent
type lay struct {
	leaf bool
	sub  []lay
}

// layouts enumerates all ways to arrange n leaves into (nested) groups up to the given nesting depth.
func layouts(n, depth int) [][]lay {
	if n == 0 {
		return [][]lay{nil}
	}
	var out [][]lay
	// first item is a leaf
	for _, rest := range layouts(n-1, depth) {
		out = append(out, append([]lay{{leaf: true}}, rest...))
	}
	if depth > 0 {
		for k := 0; k <= n; k++ {
			if k == 0 && n > 2 {
				continue
			}
			var inner [][]lay
			if k == 0 {
				inner = [][]lay{nil}
			} else {
				inner = layouts(k, depth-1)
			}
			for _, in := range inner {
				if k == 0 {
					// an empty group followed by a leaf (avoid endless empty groups)
					for _, rest := range layouts(n-1, depth) {
						out = append(out, append([]lay{{sub: in}, {leaf: true}}, rest...))
					}
					continue
				}
				for _, rest := range layouts(n-k, depth) {
					out = append(out, append([]lay{{sub: in}}, rest...))
				}
			}
		}
	}
	return out
}

func (l lay) String() string {
	if l.leaf {
		return "."
	}
	return "(" + layStr(l.sub) + ")"
}

func layStr(ls []lay) string {
	s := ""
	for _, l := range ls {
		s += l.String()
	}
	return s
}

type SomeIface interface{ Foo() }
type recur struct {
	next *recur
	m    map[string]recur
}

// Go types SSZ cannot represent (and a few it can), used for omitted fields
var omittedTypes = []reflect.Type{
	reflect.TypeFor[map[string]int](), reflect.TypeFor[string](), reflect.TypeFor[interface{}](), reflect.TypeFor[chan int](),
	reflect.TypeFor[func()](), reflect.TypeFor[int](), reflect.TypeFor[float64](), reflect.TypeFor[[]int](), reflect.TypeFor[[]byte](),
	reflect.TypeFor[uint16](), reflect.TypeFor[universe.L[uint16, universe.N3]](), reflect.TypeFor[[3]string](), reflect.TypeFor[struct{ X, Y string }](),
	reflect.TypeFor[*recur](), reflect.TypeFor[SomeIface](), reflect.TypeFor[unsafe.Pointer](), reflect.TypeFor[uint8](), reflect.TypeFor[error](),
	reflect.TypeFor[[5]byte](), reflect.TypeFor[complex128](), reflect.TypeFor[uint](), reflect.TypeFor[*uint64](), reflect.TypeFor[bool](),
}

// buildStruct makes the Go struct type of a layout. Names of leaves are given; group and omitted names are unique.
type structBuilder struct {
	types    []reflect.Type
	next     int
	groups   int
	omit     int // number of omitted fields so far; -1: none wanted
	mode     int // 0: tag, 1: embedded, 2: alternating
	omits    bool
	shift    int
	farOmits bool
}

func (b *structBuilder) build(ls []lay) reflect.Type {
	var fs []reflect.StructField
	om := func() {
		if b.omits {
			t := omittedTypes[(b.omit+b.shift)%len(omittedTypes)]
			if b.farOmits {
				t = reflect.TypeFor[[66001]byte]()
			}
			tag := []string{`ssz:"omit"`, `json:"a,b" ssz:"omit,x"`, `ssz:"foo,omit"`}[b.omit%3]
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Om%d", b.omit), Type: t, Tag: reflect.StructTag(tag)})
			b.omit++
		}
	}
	om()
	for _, l := range ls {
		if l.leaf {
			fs = append(fs, reflect.StructField{Name: leafName(b.next), Type: b.types[b.next]})
			b.next++
		} else {
			g := b.groups
			b.groups++
			in := b.build(l.sub)
			f := reflect.StructField{Name: fmt.Sprintf("Grp%d", g), Type: in}
			switch {
			case b.mode == 1 || b.mode == 2 && g%2 == 0:
				f.Anonymous = true
			default:
				f.Tag = reflect.StructTag([]string{`ssz:"squash"`, `ssz:"x,squash"`}[g%2])
			}
			fs = append(fs, f)
		}
		om()
	}
	return reflect.StructOf(fs)
}

func leafName(i int) string {
	if i < 5 {
		return []string{"Alpha", "Beta", "Gamma", "Delta", "Eps"}[i]
	}
	return fmt.Sprintf("Leaf%d", i)
}

type wideLayout struct {
	name string
	l    []lay
}

// wideLayouts: n leaves in few groups, in many, and in deep ones.
func wideLayouts(n int) []wideLayout {
	leaves := func(n int) []lay {
		var l []lay
		for i := 0; i < n; i++ {
			l = append(l, lay{leaf: true})
		}
		return l
	}
	cat := func(ls ...[]lay) (out []lay) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return
	}
	group := func(l []lay) []lay { return []lay{{sub: l}} }
	single := []lay{}
	for i := 0; i < n; i++ {
		single = append(single, group(leaves(1))...)
	}
	deep := leaves(1)
	for i := 1; i < n; i++ {
		if i%2 == 0 {
			deep = cat(leaves(1), group(deep))
		} else {
			deep = cat(group(deep), leaves(1))
		}
	}
	return []wideLayout{
		{"one group", group(leaves(n))},
		{"last in a group", cat(leaves(n-1), group(leaves(1)))},
		{"first in a group", cat(group(leaves(1)), leaves(n-1))},
		{"halves", cat(group(leaves(n/2)), group(leaves(n-n/2)))},
		{"middle", cat(leaves(n/3), group(leaves(n/3)), leaves(n-2*(n/3)))},
		{"nested", cat(leaves(n/4), group(cat(leaves(n/4), group(leaves(n/4)))), leaves(n-3*(n/4)))},
		{"each in a group", single},
		{"deep", deep},
	}
}

// setOmitted fills the omitted fields and returns a function that checks them.
func omittedFields(rv reflect.Value, out []reflect.Value) []reflect.Value {
	for i := 0; i < rv.NumField(); i++ {
		n := rv.Type().Field(i).Name
		if strings.HasPrefix(n, "Om") {
			out = append(out, rv.Field(i))
		} else if strings.HasPrefix(n, "Grp") {
			out = omittedFields(rv.Field(i), out)
		}
	}
	return out
}

func fillOmitted(rv reflect.Value) {
	for _, f := range omittedFields(rv, nil) {
		switch f.Kind() {
		case reflect.Map:
			f.Set(reflect.MakeMap(f.Type()))
		case reflect.String:
			f.SetString("omitted")
		case reflect.Interface:
			if e := reflect.ValueOf(errors.New("x")); e.Type().Implements(f.Type()) {
				f.Set(e)
			}
		case reflect.Chan:
			f.Set(reflect.MakeChan(f.Type(), 1))
		case reflect.Func:
			f.Set(reflect.ValueOf(func() {}))
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 5))
		case reflect.Ptr:
			f.Set(reflect.New(f.Type().Elem()))
		default:
			if pointerFree(f.Type()) {
				b := unsafe.Slice((*byte)(f.Addr().UnsafePointer()), f.Type().Size())
				for i := range b {
					b[i] = 0x5a
				}
				if f.Kind() == reflect.Bool {
					b[0] = 1
				}
			}
		}
	}
}

func rawOmitted(rv reflect.Value) []byte {
	var out []byte
	for _, f := range omittedFields(rv, nil) {
		out = append(out, unsafe.Slice((*byte)(f.Addr().UnsafePointer()), f.Type().Size())...)
		if f.Kind() == reflect.Slice {
			out = snapshot(f.Type(), f.Addr().UnsafePointer(), out)
		}
	}
	return out
}

// comparePair checks that type x behaves like type y (same schema after flattening) in every operation.
func comparePair(c *rt.Ctx, x, y *typ, what string, quick bool, b *model.Bound, inputs int) {
	c.Case(func() string { return what + ": declared lengths" })
	dx, dy := x.D, y.D
	bx := fmt.Sprint(dx.MinLen(), dx.MaxLen(), dx.FixedLen(), dx.IsFixed(), dx.FuzzMinLen(), dx.FuzzMaxLen())
	by := fmt.Sprint(dy.MinLen(), dy.MaxLen(), dy.FixedLen(), dy.IsFixed(), dy.FuzzMinLen(), dy.FuzzMaxLen())
	c.Trans(6)
	if bx != by {
		c.Fail("lengths %s, flattened type has %s", bx, by)
	}
	var ins [][]byte
	model.Values(y.S, b, func(v *model.Val) bool {
		c.State()
		c.Case(func() string { return what + ": value " + v.String() })
		px, py := model.NewGo(x.S, v), model.NewGo(y.S, v)
		fillOmitted(px.Elem())
		om := rawOmitted(px.Elem())
		ser := model.Ser(y.S, v)
		ex, _, err := encode(x, px)
		if err != nil || !bytes.Equal(ex, ser) {
			c.Fail("encodes to %s (%v), flattened type to %s", hexs(ex), err, hexs(ser))
		}
		if sz := zssz.SizeOf(px.Interface(), dx); sz != uint64(len(ser)) {
			c.Fail("size %d, encoding has %d", sz, len(ser))
		}
		if got, want := zssz.HashTreeRoot(shaFn, px.Interface(), dx), shaModel.HTR(y.S, v); got != want {
			c.Fail("root %x, flattened type has %x", got, want)
		}
		if y.S.Kind == model.KCont {
			sx, okx := dx.(types.SignedSSZ)
			if okx {
				if got, want := zssz.SigningRoot(shaFn, px.Interface(), sx), shaModel.SigningRoot(y.S, v); got != want {
					c.Fail("signing root %x, flattened type has %x", got, want)
				}
			} else if x.S.Kind == model.KCont {
				c.Fail("no signing root")
			}
		}
		var wx, wy bytes.Buffer
		zssz.Pretty(&wx, " ", px.Interface(), dx)
		zssz.Pretty(&wy, " ", py.Interface(), dy)
		if wx.String() != wy.String() {
			c.Fail("pretty-prints as %q, flattened type as %q", clip(wx.String(), 400), clip(wy.String(), 400))
		}
		if !bytes.Equal(om, rawOmitted(px.Elem())) {
			c.Fail("an omitted field was modified by a reading operation")
		}
		c.Trans(8)
		c.Validated(8)
		if len(ins) < inputs && c.First(ser) {
			ins = append(ins, ser)
		}
		return true
	})
	one := func(d []byte) {
		c.State()
		c.Case(func() string { return what + ": input " + hexs(d) })
		px, py := fresh(x), fresh(y)
		fillOmitted(px.Elem())
		om := rawOmitted(px.Elem())
		ex, ey := decodeInto(x, px, d), decodeInto(y, py, d)
		want, ok := model.Deser(y.S, d)
		if (ex == nil) != ok || (ey == nil) != ok {
			c.Fail("decode: %v, flattened type: %v, reference accepts: %v", ex, ey, ok)
		}
		if ok {
			if got, err := model.FromGo(x.S, px.Elem()); err != nil || !model.Equal(got, want) {
				c.Fail("decoded %s, should be %s", fromGo(x, px), want)
			}
		}
		if e := zssz.DryCheck(bytes.NewReader(d), uint64(len(d)), dx); (e == nil) != ok {
			c.Fail("dry check: %v, reference accepts: %v", e, ok)
		}
		if !bytes.Equal(om, rawOmitted(px.Elem())) {
			c.Fail("decoding modified an omitted field")
		}
		c.Trans(3)
		c.Validated(3)
	}
	fuzz := func(d []byte) {
		c.State()
		c.Case(func() string { return what + ": fuzz input " + hexs(d) })
		px, py := fresh(x), fresh(y)
		fillOmitted(px.Elem())
		om := rawOmitted(px.Elem())
		nx, ex := zssz.DecodeFuzzBytes(bytes.NewReader(d), uint64(len(d)), px.Interface(), dx)
		ny, ey := zssz.DecodeFuzzBytes(bytes.NewReader(d), uint64(len(d)), py.Interface(), dy)
		c.Trans(2)
		c.Validated(2)
		if (ex == nil) != (ey == nil) || ex == nil && (nx != ny || !bytes.Equal(valueBytes(x, px), valueBytes(y, py))) {
			c.Fail("fuzz decoding gives %s (%d, %v), flattened type %s (%d, %v)", fromGo(x, px), nx, ex, fromGo(y, py), ny, ey)
		}
		if !bytes.Equal(om, rawOmitted(px.Elem())) {
			c.Fail("fuzz decoding modified an omitted field")
		}
	}
	for k, d := range ins {
		one(d)
		one(append(d[:len(d):len(d)], 0))
		for n := 0; n < len(d); n++ {
			one(d[:n])
			if k < 2 || n < 12 {
				e := append([]byte{}, d...)
				for _, a := range []byte{1, 2, 4, 0xfc, 0x80} {
					e[n] = d[n] + a
					one(e)
				}
			}
		}
	}
	if fuzzInDomain(y) {
		m := int(y.D.FuzzMinLen())
		for _, e := range []int{-1, 0, 1, 5, 9, 20, 40} {
			if m+e >= 0 {
				fuzz(pattern(m + e))
				fuzz(bytes.Repeat([]byte{3, 0, 0, 1, 0, 0, 0, 0xff}, (m+e)/8+1)[:m+e])
			}
		}
	}
}

// farNestings: groups and omitted fields that put others more than 2^16 bytes away.
func farNestings(quick bool) []rt.Unit {
	var us []rt.Unit
	leafs := []reflect.Type{reflect.TypeFor[[70000]byte](), reflect.TypeFor[uint16](), reflect.TypeFor[L5](), reflect.TypeFor[*uint32]()}
	for rot := range leafs {
		for _, l := range layouts(4, 2) {
			us = append(us, rt.Unit{Name: fmt.Sprintf("far layout %s, rotation %d", layStr(l), rot), Run: func(c *rt.Ctx) {
				b := model.Bound{TopLen: 2, TopByte: 2, TopBit: 3, ShapeCap: 2, Leaves: 1, MaxItems: 4}
				ts := append(append([]reflect.Type{}, leafs[rot:]...), leafs[:rot]...)
				y := mkTyp(c, "flat", (&structBuilder{types: ts}).build([]lay{{leaf: true}, {leaf: true}, {leaf: true}, {leaf: true}}))
				for mode := 0; mode < 2; mode++ {
					for _, om := range []bool{false, true} {
						if om && quick && (mode+rot)%2 == 1 {
							continue
						}
						sb := &structBuilder{types: ts, mode: mode, omits: om, farOmits: true}
						t := sb.build(l)
						x := mkTyp(c, t.String(), t)
						what := fmt.Sprintf("%s, rotation %d, mode %d, omitted %v", layStr(l), rot, mode, om)
						for i, sh := range model.Shapes(y.S, &b, 0) {
							v := model.Filled(y.S, sh, model.FillCount)
							ser := model.Ser(y.S, v)
							c.State()
							c.Trans(2)
							c.Validated(2)
							c.Case(func() string { return fmt.Sprintf("%s: decoding value %d", what, i) })
							p := model.NewGo(x.S, v)
							if got, _, err := encode(x, p); err != nil || !bytes.Equal(got, ser) {
								c.Fail("encodes to %s (%v), flattened type to %s", hexs(got), err, hexs(ser))
							}
							p = fresh(x)
							fillOmitted(p.Elem())
							before := rawOmitted(p.Elem())
							if err := decodeInto(x, p, ser); err != nil {
								c.Fail("decode: %v", err)
							}
							if got, err := model.FromGo(x.S, p.Elem()); err != nil || !model.Equal(got, v) {
								c.Fail("decoded another value")
							}
							if !bytes.Equal(before, rawOmitted(p.Elem())) {
								c.Fail("decoding modified an omitted field")
							}
							if err := zssz.DryCheck(bytes.NewReader(ser), uint64(len(ser)), x.D); err != nil {
								c.Fail("dry check: %v", err)
							}
						}
					}
				}
			}})
		}
	}
	return us
}

// mkTyp builds a type; a refusal is a violation.
func mkTyp(c *rt.Ctx, name string, t reflect.Type) *typ {
	return build(c, universe.Entry{Name: name, T: t})
}

var c19 = &rt.Check{
	ID: "C19", Level: "model_checking",
	Rule: "all nestings of squashed/embedded groups of up to 4 leaf fields (depth up to 3), and of 5 to 66 (257) fields in 8 ways (depth up to 40), and of 4 with more than 2^16 bytes between them, with and without omitted fields of 23 Go types between all fields, leaves over a pool of kinds and their pointer versions; state = distinct (struct type, value or input); transition = one operation, compared with the flat struct type and the reference model",
	Units: func(quick bool) []rt.Unit {
		pool := []universe.Entry{universe.FieldPool[0], universe.FieldPool[8], universe.FieldPool[3], universe.FieldPool[9], universe.FieldPool[13]}
		if !quick {
			pool = append(pool, universe.FieldPool[1], universe.FieldPool[10], universe.FieldPool[16], universe.FieldPool[17])
		}
		b := model.Bound{TopLen: 2, TopByte: 2, TopBit: 3, ShapeCap: 4, Leaves: 3, MaxItems: 20}
		var us []rt.Unit
		cnt := 0
		for n := 1; n <= 4; n++ {
			ls := layouts(n, 3)
			if n == 3 {
				ls = layouts(n, 2)
			}
			if n == 4 {
				ls = layouts(n, 1)
				if !quick {
					ls = layouts(n, 2)
				}
			}
			tuples := 1
			for i := 0; i < n; i++ {
				tuples *= len(pool)
			}
			for li, l := range ls {
				for ti := 0; ti < tuples; ti++ {
					// for 4 leaves a Latin selection of tuples, for fewer all
					if n == 4 && (ti*7+li)%25 != 0 && quick || n == 4 && (ti*7+li)%29 != 0 || n == 3 && quick && (ti*3+li)%5 != 0 {
						continue
					}
					cnt++
					k := cnt
					us = append(us, rt.Unit{Name: fmt.Sprintf("layout %s kinds %d", layStr(l), ti), Run: func(c *rt.Ctx) {
						var flat, nest []reflect.Type
						x := ti
						for i := 0; i < n; i++ {
							t := pool[x%len(pool)].T
							x /= len(pool)
							flat = append(flat, t)
							if (k>>i)&1 == 1 && t.Kind() != reflect.Ptr {
								t = reflect.PointerTo(t)
							}
							nest = append(nest, t)
						}
						var fl []lay
						for range flat {
							fl = append(fl, lay{leaf: true})
						}
						y := mkTyp(c, "flat", (&structBuilder{types: flat}).build(fl))
						for mode := 0; mode < 3; mode++ {
							for _, om := range []bool{false, true} {
								sb := &structBuilder{types: nest, mode: mode, omits: om, shift: k}
								t := sb.build(l)
								xt := mkTyp(c, t.String(), t)
								comparePair(c, xt, y, t.String(), quick, &b, 3)
							}
						}
					}})
				}
			}
		}
		wide := []int{5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 34, 47, 63, 64, 65, 66}
		if !quick {
			wide = append(wide, 11, 12, 13, 14, 18, 20, 40, 48, 80, 96, 127, 128, 129, 255, 256, 257)
		}
		for _, n := range wide {
			for _, wl := range wideLayouts(n) {
				lname, l := wl.name, wl.l
				if n > 40 && lname == "deep" {
					continue
				}
				us = append(us, rt.Unit{Name: fmt.Sprintf("%d leaves, %s", n, lname), Run: func(c *rt.Ctx) {
					// all fixed, few variable, all kinds; the values differ in a field each
					for kind := 0; kind < 4; kind++ {
						var flat, nest []reflect.Type
						for i := 0; i < n; i++ {
							t := universe.FieldPool[[]int{0, 3}[i%2]].T
							switch {
							case kind == 1 && i%7 == 3, kind == 2 && i == n-1:
								t = pool[i%2+1].T
							case kind == 3:
								t = pool[i%len(pool)].T
							}
							flat = append(flat, t)
							if i%3 == 1 && kind%2 == 1 && t.Kind() != reflect.Ptr {
								t = reflect.PointerTo(t)
							}
							nest = append(nest, t)
						}
						var fl []lay
						for range flat {
							fl = append(fl, lay{leaf: true})
						}
						y := mkTyp(c, "flat", (&structBuilder{types: flat}).build(fl))
						for mode := 0; mode < 3; mode++ {
							sb := &structBuilder{types: nest, mode: mode, omits: (mode+kind)%2 == 1, shift: n}
							t := sb.build(l)
							comparePair(c, mkTyp(c, t.String(), t), y, fmt.Sprintf("%d leaves, %s, kind %d, mode %d", n, lname, kind, mode), quick, &b, 3)
						}
					}
				}})
			}
		}
		us = append(us, farNestings(quick)...)
		us = append(us, tagUnits(quick)...)
		// declared types
		for _, p := range []struct {
			a, b reflect.Type
		}{
			{reflect.TypeFor[squash1](), reflect.TypeFor[flatSquash1]()},
			{reflect.TypeFor[universe.Omit1](), reflect.TypeFor[flatOmit1]()},
			{reflect.TypeFor[embedded](), reflect.TypeFor[flatEmbedded]()},
			{reflect.TypeFor[*embedded](), reflect.TypeFor[flatEmbedded]()},
			{reflect.TypeFor[embPtr](), reflect.TypeFor[flatEmbPtr]()},
			{reflect.TypeFor[embList](), reflect.TypeFor[flatEmbList]()},
			{reflect.TypeFor[universe.L[embedded, universe.N3]](), reflect.TypeFor[universe.L[flatEmbedded, universe.N3]]()},
			{reflect.TypeFor[[2]embedded](), reflect.TypeFor[[2]flatEmbedded]()},
			{reflect.TypeFor[universe.L[*embedded, universe.N3]](), reflect.TypeFor[universe.L[flatEmbedded, universe.N3]]()},
			{reflect.TypeFor[**uint64](), reflect.TypeFor[uint64]()},
			{reflect.TypeFor[***universe.L[byte, universe.N5]](), reflect.TypeFor[universe.L[byte, universe.N5]]()},
		} {
			us = append(us, rt.Unit{Name: "declared " + p.a.String(), Run: func(c *rt.Ctx) {
				bb := model.SmallBound()
				s1, _ := model.FromType(p.a)
				x := mkTyp(c, p.a.String(), p.a)
				y := mkTyp(c, p.b.String(), p.b)
				if s1.Kind == model.KCont {
					comparePair(c, x, y, p.a.String(), quick, &bb, 12)
				} else {
					comparePairPlain(c, x, y, p.a.String(), &bb)
				}
			}})
		}
		return us
	},
}

// comparePairPlain is comparePair for types that are not structs at the top.
func comparePairPlain(c *rt.Ctx, x, y *typ, what string, b *model.Bound) {
	model.Values(y.S, b, func(v *model.Val) bool {
		c.State()
		c.Case(func() string { return what + ": value " + v.String() })
		ser := model.Ser(y.S, v)
		px := model.NewGo(x.S, v)
		ex, _, err := encode(x, px)
		c.Trans(4)
		c.Validated(4)
		if err != nil || !bytes.Equal(ex, ser) {
			c.Fail("encodes to %s (%v), flattened type to %s", hexs(ex), err, hexs(ser))
		}
		if got, want := zssz.HashTreeRoot(shaFn, px.Interface(), x.D), shaModel.HTR(y.S, v); got != want {
			c.Fail("root %x, flattened type has %x", got, want)
		}
		var wx, wy bytes.Buffer
		zssz.Pretty(&wx, " ", px.Interface(), x.D)
		zssz.Pretty(&wy, " ", model.NewGo(y.S, v).Interface(), y.D)
		if wx.String() != wy.String() {
			c.Fail("pretty-prints as %q, flattened type as %q", clip(wx.String(), 400), clip(wy.String(), 400))
		}
		q := fresh(x)
		if err := decodeInto(x, q, ser); err != nil {
			c.Fail("decode fails: %v", err)
		}
		if got, err := model.FromGo(x.S, q.Elem()); err != nil || !model.Equal(got, v) {
			c.Fail("decoded %s", fromGo(x, q))
		}
		for n := 0; n < len(ser); n++ {
			_, ok := model.Deser(y.S, ser[:n])
			if err := decodeInto(x, fresh(x), ser[:n]); (err == nil) != ok {
				c.Fail("decode of the first %d bytes: %v, reference accepts: %v", n, err, ok)
			}
		}
		return true
	})
}

type squash1 struct {
	A uint32
	B sq1B `ssz:"squash"`
	sq1Emb
	D sq1C `ssz:"foo,squash"`
}

type sq1In struct {
	P uint8
	Q universe.L[byte, universe.N5]
}

type sq1Emb struct {
	R uint8
	S universe.L[byte, universe.N5]
}

type sq1B struct {
	X uint16
	B sq1In
}

type sq1C struct{ T universe.S1[uint8] }

type flatSquash1 struct {
	A uint32
	X uint16
	B sq1In
	R uint8
	S universe.L[byte, universe.N5]
	T universe.S1[uint8]
}

type flatOmit1 struct {
	A uint16
	B universe.L[uint16, universe.N3]
	C uint8
}

type Inner1 struct {
	X uint16
	Y universe.L[byte, universe.N5]
	S string `ssz:"omit"`
}

type Inner2 struct {
	Inner1
	Z uint64
	W map[int]int `ssz:"omit"`
}

type embedded struct {
	Before uint8
	Inner2
	C     interface{} `ssz:"omit"`
	Last  Inner3      `ssz:"squash"`
	After bool
}

type Inner3 struct {
	Q  [3]byte
	R  *uint32
	In Inner0 `ssz:"squash"`
}

type Inner0 struct{}

type flatEmbedded struct {
	Before uint8
	X      uint16
	Y      universe.L[byte, universe.N5]
	Z      uint64
	Q      [3]byte
	R      uint32
	After  bool
}

// embedded pointers and embedded non-structs are ordinary fields
type embPtr struct {
	A uint8
	*Inner1
	B uint16
}

type flatEmbPtr struct {
	A      uint8
	Inner1 Inner1
	B      uint16
}

type EList = universe.L[uint16, universe.N3]
type EU uint64

type embList struct {
	EU
	*EU2
	X [2]uint8
}

type EU2 uint16

type flatEmbList struct {
	EU  uint64
	EU2 uint16
	X   [2]uint8
}

// tagUnits: all sequences of up to four (five) flags as the tag of a field, alone or beside tags of other namespaces.
func tagUnits(quick bool) []rt.Unit {
	type in struct {
		X uint8
		Y L5
	}
	type omitted struct {
		A uint8
		C uint16
	}
	type squashed struct {
		A uint8
		X uint8
		Y L5
		C uint16
	}
	type nested struct {
		A uint8
		F in
		C uint16
	}
	flags := []string{"omit", "squash", "x", "", "omitempty", " omit", "squash ", "Omit"}
	depth := 4
	if !quick {
		depth = 5
	}
	var us []rt.Unit
	for first := range flags {
		us = append(us, rt.Unit{Name: "tags " + flags[first], Run: func(c *rt.Ctx) {
			twins := []*typ{mkTyp(c, "omitted", reflect.TypeFor[omitted]()), mkTyp(c, "squashed", reflect.TypeFor[squashed]()), mkTyp(c, "nested", reflect.TypeFor[nested]())}
			b := model.Bound{TopLen: 2, TopByte: 2, TopBit: 3, ShapeCap: 3, Leaves: 2, MaxItems: 6}
			var rec func(fl []string)
			rec = func(fl []string) {
				y := twins[2]
				for _, f := range fl {
					if f == "squash" && y == twins[2] {
						y = twins[1]
					}
					if f == "omit" {
						y = twins[0]
					}
				}
				tag := strings.Join(fl, ",")
				for _, around := range []string{`ssz:"%s"`, `json:"squash" ssz:"%s" yaml:"omit"`, `sszx:"omit" ssz:"%s"`, `xssz:"%s"`} {
					want := y
					if strings.HasPrefix(around, "x") {
						want = twins[2]
					}
					if around[0] != 's' && len(fl) > 3 {
						continue
					}
					full := fmt.Sprintf(around, tag)
					t := reflect.StructOf([]reflect.StructField{
						{Name: "A", Type: reflect.TypeFor[uint8]()},
						{Name: "F", Type: reflect.TypeFor[in](), Tag: reflect.StructTag(full)},
						{Name: "C", Type: reflect.TypeFor[uint16]()},
					})
					what := fmt.Sprintf("field tagged `%s`", full)
					c.Case(func() string { return what })
					comparePair(c, mkTyp(c, what, t), want, what, quick, &b, 1)
				}
				if len(fl) < depth {
					for _, f := range flags {
						rec(append(fl[:len(fl):len(fl)], f))
					}
				}
			}
			rec([]string{flags[first]})
		}})
	}
	return us
}
