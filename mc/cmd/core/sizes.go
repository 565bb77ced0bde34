package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

var c06 = &rt.Check{
	ID: "C06", Level: "model_checking",
	Shift: true,
	Rule:  "state = distinct (container type, value); transition = one SigningRoot call, compared with the reference root of the container without its last flattened field; values include every single-leaf change of each base value",
	Units: func(quick bool) []rt.Unit {
		es := typesFor(quick)
		// every arity around the powers of two, every kind in last position
		for n := 0; n <= 20; n++ {
			for k, last := range universe.FieldPool {
				if n > 4 && k%5 != n%5 && quick {
					continue
				}
				fs := []universe.Entry{}
				for i := 0; i < n; i++ {
					fs = append(fs, universe.FieldPool[(i*7+k)%len(universe.FieldPool)])
				}
				es = append(es, universe.StructOf(append(fs, last)...))
			}
		}
		var cont []universe.Entry
		for _, e := range dedup(es) {
			if s, err := model.FromType(e.T); err == nil && s.Kind == model.KCont {
				cont = append(cont, e)
			}
		}
		return perType(cont, func(c *rt.Ctx, t *typ) {
			sg, ok := t.D.(types.SignedSSZ)
			if !ok {
				c.Case(func() string { return "signing a container" })
				c.Fail("the definition of a container type has no signing root")
			}
			forValues(c, t, bound(quick), func(v *model.Val, ser []byte) {
				c.Case(vdesc(t, v))
				p := model.NewGo(t.S, v)
				c.Trans(1)
				got, want := zssz.SigningRoot(shaFn, p.Interface(), sg), shaModel.SigningRoot(t.S, v)
				if got != want {
					c.Fail("signing root %x, SSZ says %x", got, want)
				}
				c.Validated(1)
			})
		})
	},
}

// ---- declared bounds

func boundsOf(c *rt.Ctx, t *typ, desc string) {
	c.State()
	c.Case(func() string { return "bounds of " + t.Name + desc })
	s, d := t.S, t.D
	c.Trans(4)
	if got, want := d.MinLen(), s.MinLen(); got != want {
		c.Fail("MinLen is %d, the smallest encoding has %d bytes", got, want)
	}
	if want := s.MaxLen(); want.IsUint64() {
		if got := d.MaxLen(); got != want.Uint64() {
			c.Fail("MaxLen is %d, the largest encoding has %d bytes", got, want)
		}
	} else {
		c.Count("max_beyond_64_bits", 1)
	}
	if got, want := d.IsFixed(), s.Fixed(); got != want {
		c.Fail("IsFixed is %v", got)
	}
	k := s
	for k.Kind == model.KPtr {
		k = k.Elem
	}
	if s.Fixed() || k.Kind == model.KCont || k.Kind == model.KVec {
		if got, want := d.FixedLen(), s.FixedPart(); got != want {
			c.Fail("FixedLen is %d, should be %d", got, want)
		}
	}
	c.Validated(4)
}

func reach(c *rt.Ctx, t *typ, desc string, v *model.Val, want uint64, what string) {
	c.State()
	c.Case(func() string { return what + " value" + desc + " " + v.String() })
	p := model.NewGo(t.S, v)
	c.Trans(2)
	b, n, err := encode(t, p)
	if err != nil || uint64(len(b)) != want || uint64(n) != want {
		c.Fail("%s declared length %d, but its %s value encodes to %d bytes (%v)", what, want, what, len(b), err)
	}
	if err := decodeInto(t, fresh(t), b); err != nil {
		c.Fail("the encoding of the %s value is refused: %v", what, err)
	}
	c.Validated(2)
}

var c13 = &rt.Check{
	ID: "C13", Level: "model_checking",
	Shift:       true,
	Rule:        "state = distinct (type incl. limit, bound or value); transitions = calls of MinLen/MaxLen/FixedLen/IsFixed and Encode; declared bounds are compared with the exact (arbitrary-precision) ones, both ends are reached by real encodings, every enumerated value lies between",
	Assumptions: []string{"the maximum length is only compared when it fits in 64 bits"},
	Units: func(quick bool) []rt.Unit {
		items := uint64(3000)
		if !quick {
			items = 60000
		}
		all := func(c *rt.Ctx, t *typ, desc string, b *model.Bound) {
			boundsOf(c, t, desc)
			reach(c, t, desc, model.MinVal(t.S), t.D.MinLen(), "smallest")
			if v, ok := model.MaxVal(t.S, items); ok {
				reach(c, t, desc, v, t.D.MaxLen(), "largest")
				c.Count("max_reached", 1)
			}
			lo, hi := t.D.MinLen(), t.D.MaxLen()
			exact := t.S.MaxLen().IsUint64()
			seen := map[int]bool{}
			model.Values(t.S, b, func(v *model.Val) bool {
				n := len(model.Ser(t.S, v))
				if seen[n] {
					return true
				}
				seen[n] = true
				c.State()
				c.Case(vdesc(t, v))
				p := model.NewGo(t.S, v)
				e, _, err := encode(t, p)
				c.Trans(1)
				if err != nil || uint64(len(e)) < lo || exact && uint64(len(e)) > hi {
					c.Fail("encoding of %d bytes outside the declared bounds %d..%d (%v)", len(e), lo, hi, err)
				}
				c.Validated(1)
				return true
			})
		}
		small := model.SmallBound()
		es := append(typesFor(quick), universe.Big...)
		us := perType(dedup(es), func(c *rt.Ctx, t *typ) { all(c, t, "", &small) })
		for _, e := range universe.Dynamic {
			us = append(us, rt.Unit{Name: e.Name + " D=*", Run: func(c *rt.Ctx) {
				for _, lim := range dynLimits(quick) {
					universe.DynLimit = lim
					t := build(c, e)
					if t.S.MaxLen().IsUint64() {
						all(c, t, fmt.Sprintf(" limit %d", lim), &small)
					}
				}
			}})
		}
		return append(hugeBounds(), us...)
	},
}

// ---- fuzz mode

func fuzzInDomain(t *typ) bool {
	// sizes must fit 64 bits with room (limits of astronomical size are outside the domain)
	return !t.S.HasZeroSizeListElem() && t.S.MaxLen().Cmp(new(big.Int).SetUint64(1<<55)) < 0
}

// countingReader counts what it delivers.
type countingReader struct {
	b   []byte
	pos int
}

func (r *countingReader) Read(p []byte) (int, error) {
	if r.pos == len(r.b) {
		return 0, errEOF
	}
	n := copy(p, r.b[r.pos:])
	r.pos += n
	return n, nil
}

func fuzzOne(c *rt.Ctx, t *typ, d []byte, extra int, want bool) {
	c.Case(func() string {
		return fmt.Sprintf("fuzz input (%d bytes, %d more on the stream) %s", len(d), extra, hexs(d))
	})
	r := &countingReader{b: d}
	if extra > 0 {
		r.b = append(d[:len(d):len(d)], pattern(extra)...)
	}
	p := fresh(t)
	n, err := zssz.DecodeFuzzBytes(r, uint64(len(d)), p.Interface(), t.D)
	c.Trans(1)
	c.Validated(1)
	if !want {
		if err == nil {
			c.Fail("success with %d bytes, minimum is %d", len(d), t.D.FuzzMinLen())
		}
		return
	}
	if err != nil {
		c.Fail("fuzz decoding failed: %v", err)
	}
	if uint64(r.pos) != n || n > uint64(len(d)) || n < t.D.FuzzMinLen() || n > t.D.FuzzMaxLen() {
		c.Fail("reported consumption %d, read %d of %d, declared bounds %d..%d", n, r.pos, len(d), t.D.FuzzMinLen(), t.D.FuzzMaxLen())
	}
	v, e2 := model.FromGo(t.S, p.Elem())
	if e2 != nil {
		c.Fail("result is ill-formed: %v", e2)
	}
	if !model.Valid(t.S, v) {
		c.Fail("result exceeds its limits: %s", v)
	}
	ser := model.Ser(t.S, v)
	key := append([]byte("r"), ser...)
	if !c.First(key) {
		return
	}
	c.Count("distinct_results", 1)
	b, _, e3 := encode(t, p)
	c.Trans(3)
	if e3 != nil || !bytes.Equal(b, ser) {
		c.Fail("result %s encodes to %s (%v)", v, hexs(b), e3)
	}
	if e := decodeInto(t, fresh(t), b); e != nil {
		c.Fail("strict decoding refuses the encoding of the result %s: %v", v, e)
	}
	if got := zssz.HashTreeRoot(shaFn, p.Interface(), t.D); got != shaModel.HTR(t.S, v) {
		c.Fail("hash of the result %s is %x", v, got)
	}
}

var c12 = &rt.Check{
	ID: "C12", Level: "model_checking",
	Rule:        "state = distinct (type, fuzz input): all lengths around the minimum and beyond, several fills, every single-byte change, every 8-byte length word at every position; transition = one DecodeFuzzBytes (and the encode/strict decode/hash of each new result)",
	Assumptions: []string{"types with zero-size list elements and types whose sizes do not fit 55 bits are not used"},
	Units: func(quick bool) []rt.Unit {
		words := []uint64{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 1 << 16, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 1, 1<<64 - 8}
		run := func(c *rt.Ctx, t *typ, desc string, light bool) {
			if !fuzzInDomain(t) {
				return
			}
			lo := t.D.FuzzMinLen()
			c.Case(func() string { return "declared fuzzing bounds" + desc })
			if lo > t.D.FuzzMaxLen() {
				c.Fail("FuzzMinLen %d > FuzzMaxLen %d", lo, t.D.FuzzMaxLen())
			}
			if lo > 3000 {
				return
			}
			one := func(d []byte, want bool) {
				if !c.First(append([]byte(desc), d...)) {
					return
				}
				c.State()
				fuzzOne(c, t, append([]byte{}, d...), 0, want)
			}
			var lens []uint64
			for n := uint64(0); n <= lo+14; n++ {
				if n+30 < lo && n > 40 {
					continue
				}
				lens = append(lens, n)
			}
			lens = append(lens, lo+20, lo+31, lo+32, lo+40, lo+64, lo+100, lo+300)
			if !quick && !light {
				for n := lo + 15; n < lo+60; n++ {
					lens = append(lens, n)
				}
				lens = append(lens, lo+1000, lo+5000)
			}
			for _, n := range lens {
				want := n >= lo
				fills := [][]byte{make([]byte, n), bytes.Repeat([]byte{1}, int(n)), bytes.Repeat([]byte{0xff}, int(n)), pattern(int(n)), bytes.Repeat([]byte{0x80, 0, 3}, int(n)/3+1)[:n], bytes.Repeat([]byte{5, 0, 0, 0, 0, 0, 0, 0}, int(n)/8+1)[:n]}
				for k, f := range fills {
					one(f, want)
					if !want || (light || quick && n > 150) && k%3 != 0 || (quick && n > lo+64) || n > 700 {
						continue
					}
					fuzzOne(c, t, f, 13, true)
					stride := 1
					if n > 120 {
						stride = int(n)/100 + 1
					}
					for i := 0; i < int(n); i += stride {
						old := f[i]
						vals := byteAlpha
						if quick && k > 1 {
							vals = vals[:6]
						}
						if i < 24 && k == 0 && (!quick || n%4 == 0) {
							vals = allBytes()
						}
						for _, x := range vals {
							f[i] = x
							one(f, true)
						}
						f[i] = old
					}
					for i := 0; i+8 <= int(n); i += stride {
						var old [8]byte
						copy(old[:], f[i:])
						for _, w := range append(words, n, n-1, n-8, n-9, lo, lo+1) {
							binary.LittleEndian.PutUint64(f[i:], w)
							one(f, true)
						}
						copy(f[i:], old[:])
					}
					// two length words
					if k == 0 && n <= 60 {
						for i := 0; i+16 <= int(n); i += 1 {
							for j := i + 8; j+8 <= int(n) && j < i+20; j++ {
								for _, a := range []uint64{1, 2, 5, 9, 17, 1<<64 - 1} {
									for _, b := range []uint64{1, 2, 5, 9, 17, 1<<64 - 1} {
										binary.LittleEndian.PutUint64(f[i:], a)
										binary.LittleEndian.PutUint64(f[j:], b)
										one(f, true)
									}
								}
								clear(f)
							}
						}
					}
				}
			}
		}
		es := append(heavyTypes(quick), universe.Big...)
		us := perType(dedup(es), func(c *rt.Ctx, t *typ) { run(c, t, "", false) })
		for _, e := range universe.Dynamic {
			us = append(us, rt.Unit{Name: e.Name + " D=*", Run: func(c *rt.Ctx) {
				top := uint64(40)
				if !quick {
					top = 140
				}
				for lim := uint64(0); lim <= top; lim++ {
					universe.DynLimit = lim
					run(c, build(c, e), fmt.Sprintf(" limit %d", lim), true)
				}
				for _, lim := range []uint64{255, 256, 257, 1 << 16, 1 << 32, 1<<40 + 1, 1 << 48} {
					universe.DynLimit = lim
					run(c, build(c, e), fmt.Sprintf(" limit %d", lim), true)
				}
			}})
		}
		return append(farFuzz(), append(longFuzz(quick), us...)...)
	},
}
