package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"reflect"

	"github.com/protolambda/zssz"

	"verif/mc/rt"
	"verif/mc/universe"
)

// hugeTypes: vectors of up to 2^44 bytes of memory, alone, in containers and as elements; no values of them are made.
func hugeTypes() []universe.Entry {
	if bits.UintSize == 32 {
		return nil
	}
	var es []universe.Entry
	add := func(name string, t reflect.Type) { es = append(es, universe.Entry{Name: name, T: t}) }
	elems := []reflect.Type{
		reflect.TypeFor[byte](), reflect.TypeFor[bool](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](),
		reflect.TypeFor[[3]byte](), reflect.TypeFor[[32]byte](), reflect.TypeFor[[5]uint64](), reflect.TypeFor[universe.S3[uint16, uint64, bool]](),
		reflect.TypeFor[*uint64](), reflect.TypeFor[universe.L[byte, universe.N5]](), reflect.TypeFor[universe.S3[uint8, universe.L[uint16, universe.N3], uint32]](),
		reflect.TypeFor[universe.S1[bool]](), reflect.TypeFor[[1 << 12]byte](), reflect.TypeFor[[1<<16 + 1]uint16](),
	}
	lens := []uint64{255, 256, 257}
	for _, k := range []uint{14, 15, 16, 24, 26, 28, 29, 30, 31, 32, 33, 35, 36, 40} {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1, 3<<k+5)
	}
	for _, e := range elems {
		for _, n := range lens {
			if hi, lo := bits.Mul64(n, uint64(e.Size())); hi > 0 || lo > 1<<44 {
				continue
			}
			a := reflect.ArrayOf(int(n), e)
			add(fmt.Sprintf("[%d]%s", n, e), a)
			if n > 300 && uint64(a.Size()) < 1<<40 && n&3 != 3 {
				u8 := reflect.TypeFor[uint8]()
				add(fmt.Sprintf("struct{u8; [%d]%s; L; [%d]%s}", n, e, n, e), reflect.StructOf([]reflect.StructField{{Name: "A", Type: u8}, {Name: "B", Type: a}, {Name: "C", Type: reflect.TypeFor[L5]()}, {Name: "D", Type: a}}))
				add(fmt.Sprintf("struct{[%d]%s; u8}", n, e), reflect.StructOf([]reflect.StructField{{Name: "B", Type: a}, {Name: "A", Type: u8}}))
				add(fmt.Sprintf("[3][%d]%s", n, e), reflect.ArrayOf(3, a))
				add(fmt.Sprintf("*[2]*[%d]%s", n, e), reflect.PointerTo(reflect.ArrayOf(2, reflect.PointerTo(a))))
			}
		}
	}
	return es
}

// hugeBounds: the declared lengths of huge types.
func hugeBounds() []rt.Unit {
	var us []rt.Unit
	es := hugeTypes()
	for k := 0; k < 8; k++ {
		us = append(us, rt.Unit{Name: fmt.Sprint("huge types ", k), Run: func(c *rt.Ctx) {
			for i := k; i < len(es); i += 8 {
				boundsOf(c, build(c, es[i]), "")
			}
		}})
	}
	return us
}

// hugeInputs: short inputs that are claimed to be as long as encodings of huge types.
func hugeInputs() []rt.Unit {
	var us []rt.Unit
	es := hugeTypes()
	for k := 0; k < 8; k++ {
		us = append(us, rt.Unit{Name: fmt.Sprint("huge types ", k), Run: func(c *rt.Ctx) {
			for i := k; i < len(es); i += 8 {
				t := build(c, es[i])
				m := t.S.MinLen()
				if m <= 300 {
					continue
				}
				for _, d := range [][]byte{nil, {1}, pattern(40), make([]byte, 300)} {
					for _, claim := range []uint64{m, m + 1, m - 1, m & (1<<32 - 1), uint64(len(d)), 1<<63 - 1, 1 << 63, 1<<64 - 1} {
						c.State()
						c.Trans(1)
						c.Case(func() string { return fmt.Sprintf("dry check of %s, claimed %d", hexs(d), claim) })
						a0 := allocated()
						err := zssz.DryCheck(bytes.NewReader(d), claim, t.D)
						a1 := allocated()
						if err == nil {
							c.Fail("success with %d bytes, the smallest encoding has %d", len(d), m)
						}
						if a1-a0 > 64<<10+64*uint64(len(d))+1<<20 {
							c.FailSoft("allocated %d bytes", a1-a0)
						}
						c.Validated(1)
					}
				}
			}
		}})
	}
	return us
}
