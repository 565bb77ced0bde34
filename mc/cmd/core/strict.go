package main

import (
	"bytes"
	"fmt"

	"github.com/protolambda/zssz"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// inputUnits: all static types, generated containers, and dynamic-limit types with limits around the input sizes.
func inputUnits(quick bool, f func(c *rt.Ctx, t *typ, d []byte)) []rt.Unit {
	us := perType(heavyTypes(quick), func(c *rt.Ctx, t *typ) {
		forInputs(c, t, quick, func(d []byte) { f(c, t, d) })
	})
	for _, e := range universe.Dynamic {
		us = append(us, rt.Unit{Name: e.Name + " D=0..", Run: func(c *rt.Ctx) {
			top := uint64(20)
			if !quick {
				top = 70
			}
			for lim := uint64(0); lim <= top; lim++ {
				universe.DynLimit = lim
				t := build(c, e)
				for n := uint64(0); n <= lim+10; n++ {
					for _, v := range lenVals(t.S, n) {
						d := model.Ser(t.S, v)
						for _, x := range [][]byte{d, append(d[:len(d):len(d)], 0), append(d[:len(d):len(d)], 1), d[:max(0, len(d)-1)]} {
							c.State()
							c.Case(func() string { return fmt.Sprintf("limit %d input %s", lim, hexs(x)) })
							f(c, t, x)
						}
					}
				}
			}
		}})
	}
	return append(longUnits(quick, f), us...)
}

// longUnits: lengths, counts and limits far beyond the other inputs, around 2^8, 2^12, 2^15, 2^16 and 2^32.
func longUnits(quick bool, f func(c *rt.Ctx, t *typ, d []byte)) []rt.Unit {
	var us []rt.Unit
	for _, e := range universe.Big {
		s := e.Schema()
		us = append(us, rt.Unit{Name: "long " + e.Name, Run: func(c *rt.Ctx) {
			t := build(c, e)
			out := func(d []byte) {
				if c.First(d) {
					c.State()
					c.Case(func() string { return fmt.Sprintf("input (%d bytes) %s", len(d), hexs(d)) })
					f(c, t, d)
				}
			}
			counts := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257, 258, 300}
			if !quick {
				for i := 3; i < 300; i++ {
					counts = append(counts, i)
				}
				counts = append(counts, 1023, 1024, 4095, 4096, 4097)
			}
			switch elem := s.Elem; {
			case elem != nil && !elem.Fixed(): // offset tables
				for _, k := range counts {
					if s.Kind == model.KVec && uint64(k) != s.N {
						k = int(s.N) // only one count is valid, the others are refused by their first offset
					}
					v := &model.Val{E: []*model.Val{}}
					b := model.SmallBound()
					shapes := model.Shapes(elem, &b, 1)
					for i := 0; i < k; i++ {
						v.E = append(v.E, model.Filled(elem, shapes[i%len(shapes)], model.FillCount))
					}
					d := model.Ser(s, v)
					out(d)
					if len(d) == 0 {
						continue
					}
					out(d[:len(d)-1])
					out(append(append([]byte{}, d...), 1))
					for _, i := range []int{0, 1, k / 2, 62, 63, 64, 254, 255, 256, k - 2, k - 1} {
						if i < 0 || i >= k {
							continue
						}
						o := uint32(d[4*i]) | uint32(d[4*i+1])<<8 | uint32(d[4*i+2])<<16 | uint32(d[4*i+3])<<24
						for _, w := range []uint32{o + 1, o - 1, o + 4, o - 4, o ^ 0x100, o ^ 0x10000, o ^ 0x1000000, o + 0x10000, 0, uint32(len(d)), uint32(len(d)) + 1} {
							x := append([]byte{}, d...)
							x[4*i], x[4*i+1], x[4*i+2], x[4*i+3] = byte(w), byte(w>>8), byte(w>>16), byte(w>>24)
							out(x)
						}
					}
				}
			default: // every length
				top := 1100
				if !quick {
					top = 2300
				}
				var lens []int
				for n := 0; n < top; n++ {
					lens = append(lens, n)
				}
				for _, m := range []int{1 << 12, 1 << 14, 1 << 15, 1 << 16, 70000} {
					for i := -9; i < 10; i++ {
						lens = append(lens, m+i)
					}
				}
				if m := s.MaxLen(); m.IsUint64() && m.Uint64() < 1<<20 && !quick {
					for i := -9; i < 10; i++ {
						lens = append(lens, int(m.Uint64())+i)
					}
				}
				if s.Fixed() {
					n := int(s.MaxLen().Uint64())
					lens = lens[:0]
					for i := -3; i < 4; i++ {
						lens = append(lens, n+i)
					}
					lens = append(lens, 0, n-8, n+8, n-255, n-256, n+256)
				}
				for _, n := range lens {
					if n < 0 {
						continue
					}
					z := make([]byte, n)
					out(z)
					if n == 0 {
						continue
					}
					one := bytes.Repeat([]byte{1}, n)
					out(one)
					out(pattern(n))
					for _, i := range []int{n - 1, n - 2, n - 8, 0, 255, 256, 257, 511, 512, 4095, 4096, 65535, 65536, n / 2} {
						if i >= 0 && i < n {
							for _, x := range []byte{2, 0x80, 0xff} {
								old := one[i]
								one[i] = x
								out(one)
								one[i] = old
							}
						}
					}
					if s.Kind == model.KCont && n > 5 { // offset 5, then the list
						z[1] = 5
						out(z)
						z[1], z[2] = 4, 1
						out(z)
					}
				}
			}
		}})
	}
	for _, e := range universe.Dynamic {
		us = append(us, rt.Unit{Name: "limits " + e.Name, Run: func(c *rt.Ctx) {
			var lims []uint64
			for _, k := range []uint{7, 8, 9, 10, 12, 15, 16, 24, 31, 32, 33, 34, 35, 40, 47, 48, 55, 58} {
				for d := uint64(0); d < 6; d++ {
					lims = append(lims, 1<<k+d-2)
				}
			}
			for _, lim := range lims {
				universe.DynLimit = lim
				t := build(c, e)
				if !t.S.MaxLen().IsUint64() {
					continue
				}
				ns := []uint64{0, 1, 2, 3, 4, 5, 6, 8, 9}
				for _, k := range []uint64{255, 256, 257, 258, 65535, 65536, 65537, 65538} {
					if k <= lim+2 && (k < 300 || t.S.Kind == model.KBytes || t.S.Kind == model.KBitlist) && (k < 300 || lim < 1<<18 && !quick || lim < 1<<17) {
						ns = append(ns, k)
					}
				}
				if lim < 5000 {
					ns = append(ns, lim-1, lim, lim+1, lim+2, lim+7, lim+8, lim+9)
				}
				for _, n := range ns {
					for _, v := range lenVals(t.S, n) {
						d := model.Ser(t.S, v)
						for _, x := range [][]byte{d, append(d[:len(d):len(d)], 0), d[:max(0, len(d)-1)]} {
							c.State()
							c.Case(func() string { return fmt.Sprintf("limit %d input %s", lim, hexs(x)) })
							f(c, t, x)
						}
					}
				}
			}
		}})
	}
	return us
}

// lenVals: values whose dynamic list has n items (zero and one filled).
func lenVals(s *model.Schema, n uint64) []*model.Val {
	var mk func(s *model.Schema, fill uint64) *model.Val
	mk = func(s *model.Schema, fill uint64) *model.Val {
		switch s.Kind {
		case model.KPtr:
			return mk(s.Elem, fill)
		case model.KBytes, model.KBitlist:
			if s.N != universe.DynLimit {
				return model.MinVal(s)
			}
			v := &model.Val{B: make([]byte, n)}
			for i := range v.B {
				v.B[i] = byte(fill)
			}
			return v
		case model.KList:
			k := n
			if s.N != universe.DynLimit {
				k = 2
			}
			v := &model.Val{E: []*model.Val{}}
			for i := uint64(0); i < k; i++ {
				v.E = append(v.E, mk(s.Elem, fill))
			}
			return v
		case model.KVec:
			v := &model.Val{E: []*model.Val{}}
			for i := uint64(0); i < s.N; i++ {
				v.E = append(v.E, mk(s.Elem, fill))
			}
			return v
		case model.KCont:
			v := &model.Val{E: []*model.Val{}}
			for _, f := range s.Fields {
				v.E = append(v.E, mk(f.S, fill))
			}
			return v
		case model.KBool, model.KUint:
			return &model.Val{U: fill}
		}
		return model.MinVal(s)
	}
	return []*model.Val{mk(s, 0), mk(s, 1)}
}

var c03 = &rt.Check{
	ID: "C03", Level: "model_checking",
	Rule: "state = distinct (type, byte string); transition = one Decode (and, on success, Encode) call; accept/reject, the decoded value and the re-encoding are compared with the reference decoder",
	Units: func(quick bool) []rt.Unit {
		one := func(c *rt.Ctx, t *typ, d []byte) {
			want, ok := model.Deser(t.S, d)
			p := fresh(t)
			err := decodeInto(t, p, d)
			c.Trans(1)
			if (err == nil) != ok {
				if ok {
					c.Fail("Decode rejects a canonical encoding (of %s): %v", want, err)
				}
				c.Fail("Decode accepts an invalid encoding, as %s", fromGo(t, p))
			}
			c.Validated(1)
			if !ok {
				c.Count("rejected", 1)
				return
			}
			c.Count("accepted", 1)
			got, e2 := model.FromGo(t.S, p.Elem())
			if e2 != nil || !model.Equal(got, want) {
				c.Fail("decoded %v (%v), reference says %s", got, e2, want)
			}
			b, _, e3 := encode(t, p)
			c.Trans(1)
			if e3 != nil || !bytes.Equal(b, d) {
				c.Fail("re-encoding gives %s (%v)", hexs(b), e3)
			}
			c.Validated(1)
		}
		us := inputUnits(quick, one)
		return withGiants(append(farInputs("decoded", one), append(longInputs("decoded", quick, one), us...)...), "decoded", giantStrict)
	},
}

var c04 = &rt.Check{
	ID: "C04", Level: "model_checking",
	Rule: "state = distinct (type, byte string); transitions = one DryCheck and one Decode call on it; their verdicts are compared",
	Units: func(quick bool) []rt.Unit {
		one := func(c *rt.Ctx, t *typ, d []byte) {
			p := fresh(t)
			err := decodeInto(t, p, d)
			dry := zssz.DryCheck(bytes.NewReader(d), uint64(len(d)), t.D)
			c.Trans(2)
			if (err == nil) != (dry == nil) {
				c.Fail("Decode: %v, DryCheck: %v", err, dry)
			}
			if err == nil {
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
			c.Validated(1)
		}
		us := inputUnits(quick, one)
		return withGiants(append(farInputs("checked", one), append(longInputs("checked", quick, one), us...)...), "dry-checked", giantDry)
	},
}
