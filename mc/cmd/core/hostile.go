package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/metrics"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// maxMem bounds the Go memory of a value within limits, plus what decoding needs per element (8 bytes of offset);
// saturates at sat.
const sat = uint64(1) << 50

func satMul(a, b uint64) uint64 {
	if a != 0 && b > sat/a {
		return sat
	}
	return min(a*b, sat)
}

func maxMem(s *model.Schema) uint64 {
	switch s.Kind {
	case model.KBytes:
		return min(s.N+24, sat)
	case model.KBitlist:
		return min(s.N/8+32, sat)
	case model.KPtr:
		return min(16+maxMem(s.Elem), sat)
	case model.KList, model.KVec:
		return min(24+satMul(s.N, maxMem(s.Elem)+16+uint64(s.Elem.Typ.Size())), sat)
	case model.KCont:
		n := uint64(s.Typ.Size())
		for _, f := range s.Fields {
			n = min(n+maxMem(f.S)+16, sat)
		}
		return n
	}
	return uint64(s.Typ.Size()) + 16
}

var allocMetric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocMetric)
	return allocMetric[0].Value.Uint64()
}

var hugeClaims = []uint64{1 << 16, 1 << 20, 1 << 24, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 35, 1 << 40, 1 << 47, 1 << 48, 1 << 55, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 9, 1<<64 - 8, 1<<64 - 2, 1<<64 - 1}

var c07 = &rt.Check{
	ID: "C07", Level: "model_checking",
	Rule: "state = distinct (type, byte string); transition = one Decode or DryCheck call under one claimed length (exact, shorter, longer, huge), watched for panics, crashes, non-termination and for heap allocation beyond the bound derived from the type's limits and the input",
	Assumptions: []string{"types whose largest value does not fit in memory are only given claims up to 1 MiB beyond the data (a value that large is within their limits)",
		"allocation bound: 4 x (memory of the largest value within limits) + 64 x input bytes + 1 MiB"},
	Units: func(quick bool) []rt.Unit {
		lim := 2500
		if !quick {
			lim = 40000
		}
		one := func(c *rt.Ctx, t *typ, d []byte, claim uint64, mem uint64) {
			bound := 4*mem + 64*uint64(len(d)) + 1<<20
			a0 := allocated()
			p := fresh(t)
			e1 := zssz.Decode(bytes.NewReader(d), claim, p.Interface(), t.D)
			a1 := allocated()
			e2 := zssz.DryCheck(bytes.NewReader(d), claim, t.D)
			a2 := allocated()
			c.Trans(2)
			_, _ = e1, e2
			if a1-a0 > bound || a2-a1 > bound {
				c.Case(func() string { return fmt.Sprintf("claimed %d, input %s", claim, hexs(d)) })
				c.FailSoft("allocated %d bytes decoding and %d dry-checking %d bytes of input with claimed length %d; a value within limits needs %d", a1-a0, a2-a1, len(d), claim, mem)
			}
			c.Validated(2)
		}
		f := func(c *rt.Ctx, t *typ, mem uint64, d []byte) {
			n := uint64(len(d))
			claims := []uint64{n, n + 1, n + 2, n + 3, n + 4, n + 8, 2*n + 32, 300, 1000, 5000, 70000}
			for k := uint64(1); k <= 9 && k <= n; k++ {
				claims = append(claims, n-k)
			}
			if n > 10 {
				claims = append(claims, n/2, 0)
			}
			if mem < 1<<26 {
				claims = append(claims, hugeClaims...)
			}
			for _, cl := range claims {
				c.Case(func() string { return fmt.Sprintf("claimed %d, input %s", cl, hexs(d)) })
				one(c, t, d, cl, mem)
			}
		}
		us := perType(typesFor(quick), func(c *rt.Ctx, t *typ) {
			mem := maxMem(t.S)
			k := 0
			forInputsN(c, t, quick, lim, func(d []byte) {
				if k++; k%2 == 0 || len(d) < 6 {
					f(c, t, mem, d)
				} else {
					one(c, t, d, uint64(len(d)), mem)
				}
			})
		})
		for _, e := range append(append([]universe.Entry{}, universe.Big...), universe.Dynamic...) {
			us = append(us, rt.Unit{Name: "big " + e.Name, Run: func(c *rt.Ctx) {
				lims := []uint64{0}
				if isDyn(e) {
					lims = []uint64{0, 1, 2, 7, 8, 255, 256, 257, 1 << 12, 1 << 16, 1 << 20, 1<<20 + 1}
				}
				for _, lim := range lims {
					universe.DynLimit = lim
					t := build(c, e)
					mem := maxMem(t.S)
					for _, d := range headers() {
						c.State()
						f(c, t, mem, d)
					}
				}
			}})
		}
		return append(append(us, hugeInputs()...), rt.Unit{Name: "types without bytes", Run: func(c *rt.Ctx) {
			ds := append(headers(), words(4)...)
			for _, p := range noBytes {
				d, err := types.SSZFactory(reflect.TypeOf(p).Elem())
				if err != nil {
					c.Count("types without bytes that are refused", 1)
					continue
				}
				t := &typ{Entry: universe.Entry{Name: reflect.TypeOf(p).Elem().String(), T: reflect.TypeOf(p).Elem()}, D: d}
				for _, in := range ds {
					c.State()
					f(c, t, 4096, in)
				}
			}
		}})
	},
}

type (
	none  struct{}
	none2 struct {
		A none
		B [0]uint16
		C [2][0]bool
	}
	some struct {
		A uint8
		B universe.L[none, universe.N9]
	}
)

// Types with parts that have no bytes are not SSZ, but the library builds definitions of them: those must not crash either.
var noBytes = []interface{}{
	new(none), new(none2), new(some), new([0]uint8), new([0]uint64), new([0]bool), new([3]none), new([0]none2), new(*none), new(*[0]uint32), new([2]*none2),
	new(universe.L[none, universe.N9]), new(universe.L[none2, universe.N9]), new(universe.L[[0]uint8, universe.N9]), new(universe.L[[0]uint64, universe.N9]),
	new(universe.L[*none, universe.N9]), new(universe.L[[0]some, universe.N9]), new(universe.L[some, universe.N3]), new(universe.L[universe.L[none, universe.N3], universe.N3]),
	new([0]universe.L[uint8, universe.N9]), new([2]universe.L[none, universe.N9]), new([0]universe.L[none, universe.N9]), new(universe.L[[3]none, universe.N0]),
}

// words are all byte strings up to a length over a few bytes.
func words(n int) [][]byte {
	out := [][]byte{nil}
	for i := 0; len(out[i]) < n; i++ {
		for _, b := range []byte{0, 1, 4, 5, 9, 0xff} {
			out = append(out, append(out[i][:len(out[i]):len(out[i])], b))
		}
	}
	return out
}

func isDyn(e universe.Entry) bool {
	for _, x := range universe.Dynamic {
		if x.T == e.T {
			return true
		}
	}
	return false
}

// headers: inputs that claim a lot through offsets while supplying little.
func headers() [][]byte {
	var out [][]byte
	words := []uint32{0, 1, 4, 5, 8, 12, 16, 256, 4096, 65532, 65536, 1 << 20, 1 << 24, 1<<26 + 4, 1 << 28, 1<<30 - 4, 1 << 30, 1<<31 - 4, 1<<31 - 1, 1 << 31, 1<<32 - 4, 1<<32 - 1}
	le := func(ws ...uint32) []byte {
		var b []byte
		for _, w := range ws {
			b = append(b, byte(w), byte(w>>8), byte(w>>16), byte(w>>24))
		}
		return b
	}
	out = append(out, nil, []byte{0}, []byte{1}, []byte{0xff})
	for _, a := range words {
		out = append(out, le(a), append(le(a), 1))
		for _, b := range words {
			out = append(out, le(a, b), append(append([]byte{7}, le(a, b)...), 1))
		}
	}
	z := make([]byte, 4096)
	out = append(out, z, z[:100], append(le(1<<31), z...), append(le(4096), z...), append(le(1<<20), z...))
	return out
}
