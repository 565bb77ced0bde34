package main

import (
	"bytes"
	"fmt"

	"github.com/protolambda/zssz"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// dynLimits are the limits the dynamic-limit types are swept over.
func dynLimits(quick bool) []uint64 {
	var o []uint64
	for i := uint64(0); i <= 70; i++ {
		o = append(o, i)
	}
	top := uint(40)
	for k := uint(7); k <= top; k++ {
		o = append(o, 1<<k-1, 1<<k, 1<<k+1)
	}
	o = append(o, 1<<48, 1<<58, 100, 300, 1000)
	// up to the largest limit ("no limit"); users of this list leave out types whose largest size does not fit 64 bits
	for _, s := range []uint{0, 1, 2, 3} {
		for d := uint64(0); d < 4; d++ {
			o = append(o, (^uint64(0)>>s)-d, (^uint64(0)>>s)-8*d-5, (^uint64(0)>>s)-31*d-1)
		}
	}
	if !quick {
		for i := uint64(71); i <= 300; i++ {
			o = append(o, i)
		}
	}
	return o
}

// valueUnits: one unit per static type, plus the dynamic-limit types swept over limits.
func valueUnits(quick bool, f func(c *rt.Ctx, t *typ, v *model.Val, ser []byte), big func(c *rt.Ctx, t *typ, v *model.Val, ser []byte)) []rt.Unit {
	us := perType(typesFor(quick), func(c *rt.Ctx, t *typ) {
		forValues(c, t, bound(quick), func(v *model.Val, ser []byte) {
			c.Case(vdesc(t, v))
			f(c, t, v, ser)
		})
	})
	for _, e := range universe.Dynamic {
		for _, part := range split(dynLimits(quick), 4) {
			us = append(us, rt.Unit{Name: fmt.Sprintf("%s D=%d..", e.Name, part[0]), Run: func(c *rt.Ctx) {
				b := model.Bound{TopLen: 3, TopByte: 3, TopBit: 9, ShapeCap: 6, Leaves: 2, MaxItems: 300}
				for _, lim := range part {
					universe.DynLimit = lim
					t := build(c, e)
					if !t.S.MaxLen().IsUint64() {
						continue
					}
					model.Values(t.S, &b, func(v *model.Val) bool {
						ser := model.Ser(t.S, v)
						if c.First(append([]byte(fmt.Sprint(lim, ":")), ser...)) {
							c.State()
							c.Case(func() string { return fmt.Sprintf("limit %d value %s", lim, v) })
							f(c, t, v, ser)
						}
						return true
					})
				}
			}})
		}
	}
	if big != nil {
		us = append(bigUnits(quick, big), us...)
	}
	return us
}

func split(xs []uint64, n int) [][]uint64 {
	var out [][]uint64
	for i := 0; i < n; i++ {
		a, b := len(xs)*i/n, len(xs)*(i+1)/n
		if a < b {
			out = append(out, xs[a:b])
		}
	}
	return out
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + i>>16*5 + 1)
	}
	return b
}

// bigUnits: values whose offsets and sizes cross the 2^8, 2^16 and 2^24 boundaries, and lists of many elements.
func bigUnits(quick bool, f func(c *rt.Ctx, t *typ, v *model.Val, ser []byte)) []rt.Unit {
	var us []rt.Unit
	unit := func(name string, gen func(t *typ, yield func(v *model.Val))) {
		e := universe.Find(name)[0]
		us = append(us, rt.Unit{Name: "big " + name, Run: func(c *rt.Ctx) {
			t := build(c, e)
			gen(t, func(v *model.Val) {
				ser := model.Ser(t.S, v)
				c.State()
				c.Case(func() string { return fmt.Sprintf("value of %d encoded bytes: %s", len(ser), clip(v.String(), 200)) })
				f(c, t, v, ser)
			})
		}})
	}
	bytesV := func(n int) *model.Val { return &model.Val{B: pattern(n)} }
	bitsV := func(n int) *model.Val {
		v := bytesV(n)
		for i := range v.B {
			v.B[i] = v.B[i] >> 2 & 1
		}
		return v
	}
	list := func(es ...*model.Val) *model.Val { return &model.Val{E: append([]*model.Val{}, es...)} }
	sizes := []int{0, 1, 200, 239, 240, 243, 244, 245, 248, 252, 255, 256, 257, 65519, 65523, 65524, 65527, 65528, 65532, 65535, 65536, 65537, 70000}
	if !quick {
		for i := 240; i < 262; i++ {
			sizes = append(sizes, i)
		}
		for i := 65520; i < 65545; i++ {
			sizes = append(sizes, i)
		}
	}
	huge := []int{1<<24 - 13, 1<<24 - 12, 1<<24 - 9, 1<<24 - 8, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	unit("L[L[byte, N67108864], N3]", func(t *typ, yield func(*model.Val)) {
		for _, a := range sizes {
			yield(list(bytesV(a)))
			for _, b := range []int{0, 1, 255, 256, 65535} {
				yield(list(bytesV(a), bytesV(b)))
				yield(list(bytesV(b), bytesV(a), bytesV(3)))
			}
		}
		for _, a := range huge {
			yield(list(bytesV(a), bytesV(1), bytesV(2)))
		}
		yield(list(bytesV(40000), bytesV(30000), bytesV(2)))
		yield(list(bytesV(1<<23), bytesV(1<<23+5), bytesV(2)))
		yield(list(bytesV(1<<25), bytesV(1<<24), bytesV(2)))
	})
	unit("L[BL[N67108864], N3]", func(t *typ, yield func(*model.Val)) {
		for _, a := range sizes {
			yield(list(bitsV(a), bitsV(a+1), bitsV(8*a)))
		}
	})
	unit("[2]L[byte, N67108864]", func(t *typ, yield func(*model.Val)) {
		for _, a := range sizes {
			yield(list(bytesV(a), bytesV(7)))
			yield(list(bytesV(9), bytesV(a)))
		}
	})
	unit("S3[uint8, L[byte, N67108864], L[byte, N67108864]]", func(t *typ, yield func(*model.Val)) {
		for _, a := range append(append([]int{}, sizes...), huge[2]) {
			yield(list(&model.Val{U: 7}, bytesV(a), bytesV(5)))
			yield(list(&model.Val{U: 7}, bytesV(5), bytesV(a)))
		}
	})
	unit("L[S2[uint8, L[byte, N1048576]], N1024]", func(t *typ, yield func(*model.Val)) {
		for _, n := range []int{1, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024} {
			v := list()
			for i := 0; i < n; i++ {
				v.E = append(v.E, list(&model.Val{U: uint64(i) & 255}, bytesV(i%5*(i%70))))
			}
			yield(v)
		}
	})
	unit("L[L[byte, N70000], N1024]", func(t *typ, yield func(*model.Val)) {
		for _, n := range []int{62, 63, 64, 65, 127, 128, 1023, 1024} {
			for _, k := range []int{0, 1, 64, 65} {
				v := list()
				for i := 0; i < n; i++ {
					v.E = append(v.E, bytesV(k+i%2))
				}
				yield(v)
			}
		}
	})
	unit("L[L[uint64, N1048576], N3]", func(t *typ, yield func(*model.Val)) {
		for _, n := range []int{0, 1, 31, 32, 8190, 8191, 8192, 20000} {
			v := list()
			for i := 0; i < n; i++ {
				v.E = append(v.E, &model.Val{U: uint64(i) * 0x0102030405060708})
			}
			yield(list(v, list(), v))
		}
	})
	for _, name := range []string{"L[[32]byte, N70000]", "L[[32]byte, N1099511627776]", "L[[48]byte, N1024]"} {
		unit(name, func(t *typ, yield func(*model.Val)) {
			for n := 0; n <= 1024; n++ {
				if n > 70 && n&(n-1) != 0 && (n+1)&n != 0 && (n-1)&(n-2) != 0 && n%97 != 0 {
					continue
				}
				v := list()
				for i := 0; i < n; i++ {
					b := pattern(int(t.S.Elem.N))
					b[0], b[1] = byte(i), byte(i>>8)
					v.E = append(v.E, &model.Val{B: b})
				}
				yield(v)
			}
		})
	}
	for _, name := range []string{"L[S3[uint16, uint64, bool], N70000]", "L[S3[uint16, uint64, bool], N1099511627776]"} {
		unit(name, func(t *typ, yield func(*model.Val)) {
			for _, n := range []int{0, 1, 2, 3, 5, 8, 9, 31, 32, 33, 500, 5957, 5958, 6000} {
				v := list()
				for i := 0; i < n; i++ {
					v.E = append(v.E, list(&model.Val{U: uint64(i)}, &model.Val{U: uint64(i) << 40}, &model.Val{U: uint64(i) & 1}))
				}
				yield(v)
			}
		})
	}
	for _, name := range []string{"L[*uint64, N70000]", "L[*S3[uint8, L[uint16, N3], uint32], N70000]", "L[*S3[uint16, uint64, bool], N70000]", "L[S3[uint8, L[uint16, N3], uint32], N70000]", "L[BL[N9], N70000]", "L[S1[bool], N70000]", "L[[3]byte, N70000]", "L[L[byte, N5], N70000]"} {
		unit(name, func(t *typ, yield func(*model.Val)) {
			b := model.SmallBound()
			shapes := model.Shapes(t.S.Elem, &b, 1)
			for _, n := range []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1024, 2049, 4097, 20000} {
				v := list()
				for i := 0; i < n; i++ {
					v.E = append(v.E, shapes[i%len(shapes)])
				}
				yield(model.Filled(t.S, v, model.FillCount))
			}
			if t.S.Elem.Fixed() {
				v := list()
				for i := 0; i < 65537; i++ {
					v.E = append(v.E, shapes[i%len(shapes)])
				}
				yield(model.Filled(t.S, v, model.FillCount))
			}
		})
	}
	for _, name := range []string{"[257]uint16", "[300]uint64", "[1000]bool", "[1100]byte", "[513]uint32", "[100]*uint64", "[70]L[byte, N5]", "[70][3]byte", "[2]L[uint64, N70000]"} {
		unit(name, func(t *typ, yield func(*model.Val)) {
			b := model.SmallBound()
			for _, sh := range model.Shapes(t.S, &b, 0) {
				yield(model.Filled(t.S, sh, model.FillCount))
				yield(model.Filled(t.S, sh, model.FillOnes))
			}
		})
	}
	for _, name := range []string{"L[byte, N70000]", "L[uint16, N70000]", "L[uint32, N70000]", "L[uint64, N70000]", "L[bool, N70000]", "BL[N70000]"} {
		unit(name, func(t *typ, yield func(*model.Val)) {
			var ns []int
			for n := 0; n < 1100; n++ {
				ns = append(ns, n)
			}
			for _, m := range []int{2048, 4096, 8192, 16384, 32768, 65536, 70000} {
				for i := -9; i < 9; i++ {
					ns = append(ns, m+i)
				}
			}
			for _, n := range ns {
				if n > 70000 {
					continue
				}
				switch t.S.Kind {
				case model.KBytes:
					yield(bytesV(n))
				case model.KBitlist:
					yield(bitsV(n))
				default:
					v := list()
					for i := 0; i < n; i++ {
						x := uint64(i+1) * 0x0102030405060709
						if t.S.Elem.Kind == model.KBool {
							x = x >> 3 & 1
						} else {
							x &= ^uint64(0) >> (64 - 8*uint(t.S.Elem.Typ.Size()))
						}
						v.E = append(v.E, &model.Val{U: x})
					}
					yield(v)
				}
			}
		})
	}
	// containers of several long lists
	for _, e := range universe.DynMore {
		us = append(us, rt.Unit{Name: "big " + e.Name, Run: func(c *rt.Ctx) {
			universe.DynLimit = longLimit
			t := build(c, e)
			for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049, 4097, 8191, 8192, 16385, 32767, 32768, 65537} {
				for k, sh := range lenVals(t.S, uint64(n)) {
					v := sh
					if k == 0 {
						v = model.Filled(t.S, sh, model.FillCount)
					}
					ser := model.Ser(t.S, v)
					c.State()
					c.Case(func() string { return fmt.Sprintf("lists of %d elements, fill %d", n, k) })
					f(c, t, v, ser)
				}
			}
		}})
	}
	us = append(us, farValues(f)...)
	unit("L[L[byte, N1099511627776], N1099511627776]", func(t *typ, yield func(*model.Val)) {
		for n := 0; n < 20; n++ {
			v := list()
			for i := 0; i < n; i++ {
				v.E = append(v.E, bytesV(i*9))
			}
			yield(v)
		}
	})
	return us
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// set where the host's words have 64 bits (giant.go)
var giantEncode, giantRoots, giantDecode, giantStrict, giantDry, giantBits func(c *rt.Ctx)

func withGiants(us []rt.Unit, what string, f func(c *rt.Ctx)) []rt.Unit {
	if f == nil {
		return us
	}
	return append([]rt.Unit{{Name: "giant values, " + what, Run: func(c *rt.Ctx) { c.MoreMemory(16<<30, func() { f(c) }) }}}, us...)
}

var c01 = &rt.Check{
	ID: "C01", Level: "model_checking",
	Shift: true,
	Rule:  "state = distinct (type, value) of the bounded type grammar and value space; transition = one Encode/SizeOf call of the real code; every one is compared with the reference serialization",
	Units: func(quick bool) []rt.Unit {
		f := func(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
			p := model.NewGo(t.S, v)
			b, n, err := encode(t, p)
			c.Trans(2)
			if err != nil {
				c.Fail("Encode failed: %v", err)
			}
			if !bytes.Equal(b, ser) {
				c.Fail("Encode wrote %s\nSSZ is %s", diff(b, ser), hexs(ser))
			}
			if n != len(ser) {
				c.Fail("Encode returned %d, wrote %d bytes", n, len(ser))
			}
			if sz := zssz.SizeOf(p.Interface(), t.D); sz != uint64(len(ser)) {
				c.Fail("SizeOf is %d, encoding has %d bytes", sz, len(ser))
			}
			c.Validated(2)
		}
		return withGiants(valueUnits(quick, f, f), "encoded", giantEncode)
	},
}

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("(%d bytes, first difference at %d of %d) %s", len(got), i, len(want), hexs(got))
}

var c02 = &rt.Check{
	ID: "C02", Level: "model_checking",
	Shift: true,
	Rule:  "state = distinct (type, value); transition = one Decode of its reference encoding into a fresh destination, compared field by field with the value",
	Units: func(quick bool) []rt.Unit {
		f := func(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
			p := fresh(t)
			r := bytes.NewReader(ser)
			c.Trans(1)
			if err := zssz.Decode(r, uint64(len(ser)), p.Interface(), t.D); err != nil {
				c.Fail("Decode of %s failed: %v", hexs(ser), err)
			}
			if r.Len() != 0 {
				c.Fail("Decode left %d bytes unread", r.Len())
			}
			got, err := model.FromGo(t.S, p.Elem())
			if err != nil {
				c.Fail("decoded value is ill-formed: %v", err)
			}
			if !model.Equal(got, v) {
				c.Fail("decoded %s from %s", got, hexs(ser))
			}
			c.Validated(1)
		}
		return withGiants(valueUnits(quick, f, f), "decoded", giantDecode)
	},
}

var c05 = &rt.Check{
	ID: "C05", Level: "model_checking",
	Shift: true,
	Rule:  "state = distinct (type incl. limit, value); transition = one HashTreeRoot call, compared with the reference merkleization (SHA-256)",
	Units: func(quick bool) []rt.Unit {
		f := func(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
			if len(ser) > 1<<21 {
				return
			}
			p := model.NewGo(t.S, v)
			c.Trans(1)
			if got, want := zssz.HashTreeRoot(shaFn, p.Interface(), t.D), shaModel.HTR(t.S, v); got != want {
				c.Fail("root %x, SSZ says %x", got, want)
			}
			c.Validated(1)
		}
		return withGiants(valueUnits(quick, f, f), "hashed", giantRoots)
	},
}
