package main

import (
	"encoding/binary"
	"fmt"

	"github.com/protolambda/zssz"

	"bytes"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// far runs f for the types with fixed parts, tables, elements and memory places beyond 2^16.
func far(what string, f func(c *rt.Ctx, t *typ)) []rt.Unit {
	var us []rt.Unit
	for _, e := range universe.Far {
		us = append(us, rt.Unit{Name: "far " + what + " " + e.Name, Run: func(c *rt.Ctx) { f(c, build(c, e)) }})
	}
	return us
}

func farVals(t *typ) []*model.Val {
	b := model.Bound{TopLen: 3, TopByte: 3, TopBit: 4, ShapeCap: 5, Leaves: 2, MaxItems: 20}
	var vs []*model.Val
	for _, sh := range model.Shapes(t.S, &b, 0) {
		vs = append(vs, model.Filled(t.S, sh, model.FillCount), model.Filled(t.S, sh, model.FillOnes))
	}
	return vs
}

func farValues(f func(c *rt.Ctx, t *typ, v *model.Val, ser []byte)) []rt.Unit {
	return far("values of", func(c *rt.Ctx, t *typ) {
		for i, v := range farVals(t) {
			ser := model.Ser(t.S, v)
			c.State()
			c.Case(func() string {
				return fmt.Sprintf("value %d, of %d encoded bytes: %s", i, len(ser), clip(v.String(), 200))
			})
			f(c, t, v, ser)
		}
	})
}

// farInputs: their encodings with single changes, cut or extended.
func farInputs(what string, f func(c *rt.Ctx, t *typ, d []byte)) []rt.Unit {
	return far(what, func(c *rt.Ctx, t *typ) {
		for i, v := range farVals(t) {
			d := model.Ser(t.S, v)
			in := func(what string, x []byte) {
				c.State()
				c.Case(func() string { return fmt.Sprintf("encoding %d (%d bytes), %s: %s", i, len(d), what, hexs(x)) })
				f(c, t, x)
			}
			in("valid", d)
			if len(d) == 0 {
				continue
			}
			in("one more byte", append(d[:len(d):len(d)], 0))
			for _, n := range []int{len(d) - 1, len(d) / 2, 65535, 65536, 65537, len(d) - 65536, len(d) - 70000, 10, 4} {
				if n >= 0 && n < len(d) {
					in(fmt.Sprintf("cut at %d", n), d[:n])
				}
			}
			if i >= 6 {
				continue
			}
			try := func(p int, old byte) {
				for _, x := range []byte{0, 1, 2, 0x80} {
					if x != old {
						d[p] = x
						in(fmt.Sprintf("byte %d is %d", p, x), d)
					}
				}
				d[p] = old
			}
			for _, p := range places(len(d), false) {
				try(p, d[p])
			}
			for _, p := range []int{65535, 65536, 65537, 66001, 70000, 70001} {
				if p < len(d) {
					try(p, d[p])
				}
			}
			var at []int
			for p := 0; p < 4; p++ {
				at = append(at, p)
			}
			for _, p := range []int{4, 5, 8, 12, 16, 66001, 66005, 70000, 70001, 70002, 70003, 70004, 70005, 70006, 136000, 136004, 65532, 65536, 67996} {
				at = append(at, p)
			}
			for p := -9; p < 0; p++ {
				at = append(at, len(d)+p)
			}
			for _, p := range at {
				if p < 0 || p+4 > len(d) {
					continue
				}
				old := binary.LittleEndian.Uint32(d[p:])
				for _, x := range []uint32{old + 1, old - 1, old ^ 0x10000, old & 0xffff, uint32(len(d)), uint32(len(d)) + 1, 0, 1<<32 - 1} {
					binary.LittleEndian.PutUint32(d[p:], x)
					in(fmt.Sprintf("word at %d is %d", p, x), d)
				}
				binary.LittleEndian.PutUint32(d[p:], old)
			}
		}
	})
}

// farMemory: their values between guards.
func farMemory() []rt.Unit {
	return far("memory of", func(c *rt.Ctx, t *typ) {
		for i, v := range farVals(t) {
			d := model.Ser(t.S, v)
			for k, x := range [][]byte{d, append(d[:len(d):len(d)], 0), d[:max(0, len(d)-1)], pattern(len(d))} {
				c.State()
				c.Case(func() string { return fmt.Sprintf("input %d, kind %d", i, k) })
				g := &guards{}
				p := g.guardedNew(t.T)
				if i%2 == 1 {
					g.fillGo(t.S, v, p.Elem(), 0)
				}
				zssz.Decode(bytes.NewReader(x), uint64(len(x)), p.Interface(), t.D)
				c.Trans(1)
				c.Validated(1)
				if err := g.check(); err != nil {
					c.Fail("decode: %v", err)
				}
				if err := model.WellFormed(t.S, p.Elem()); err != nil {
					c.Fail("decode: %v", err)
				}
				if k > 0 {
					continue
				}
				w := &sinkWriter{}
				zssz.Encode(w, p.Interface(), t.D)
				zssz.SizeOf(p.Interface(), t.D)
				zssz.HashTreeRoot(shaFn, p.Interface(), t.D)
				if err := g.check(); err != nil {
					c.Fail("reading operations: %v", err)
				}
			}
		}
	})
}

// farHistories: pairs of decodes into one destination.
func farHistories() []rt.Unit {
	return far("histories of", func(c *rt.Ctx, t *typ) {
		vs := farVals(t)
		if len(vs) > 10 {
			vs = vs[:10]
		}
		for i, a := range vs {
			for j, b := range vs {
				x, y := model.Ser(t.S, a), model.Ser(t.S, b)
				for _, cut := range []int{0, 1, 66003} {
					if cut > len(x) {
						continue
					}
					c.State()
					c.Trans(2)
					c.Validated(1)
					c.Case(func() string { return fmt.Sprintf("value %d without %d bytes, then value %d", i, cut, j) })
					p := fresh(t)
					decodeInto(t, p, x[:len(x)-cut])
					if err := decodeInto(t, p, y); err != nil {
						c.Fail("error %v; on a fresh destination there is none", err)
					}
					if got := valueBytes(t, p); !bytes.Equal(got, y) {
						c.Fail("value %s; on a fresh destination %s", hexs(got), hexs(y))
					}
				}
			}
		}
	})
}

// farFuzz: fuzzing inputs for them.
func farFuzz() []rt.Unit {
	return far("fuzzed", func(c *rt.Ctx, t *typ) {
		if !fuzzInDomain(t) {
			return
		}
		lo := int(t.D.FuzzMinLen())
		if lo > 1<<20 {
			return
		}
		for _, extra := range []int{0, 1, 5, 100, 65536, 70001, 140100, 210100} {
			l := lo + extra
			for k, x := range [][]byte{make([]byte, l), bytes.Repeat([]byte{0xff}, l), pattern(l), bytes.Repeat([]byte{1}, l)} {
				for _, w := range []uint64{0, 7, uint64(l) - 9, 70000, 140000, 1 << 40} {
					if l < 8 {
						continue
					}
					binary.LittleEndian.PutUint64(x, w)
					c.State()
					c.Case(func() string { return fmt.Sprintf("input of %d bytes, fill %d, word %d", l, k, w) })
					fuzzOne(c, t, x, 0, true)
				}
			}
		}
	})
}
