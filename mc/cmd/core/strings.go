package main

import (
	"encoding/binary"
	"fmt"
	"math/big"

	"verif/mc/model"
	"verif/mc/rt"
)

// inputs enumerates byte strings for a type: all short strings over small alphabets, all offset tables for small total
// lengths, and the neighbourhood of valid encodings (structural faults with consistent offsets, truncations, extensions,
// byte and word changes, insertions, deletions, over-limit values). Every string is yielded once.
type inputs struct {
	c     *rt.Ctx
	t     *typ
	f     func(d []byte)
	quick bool
	lim   int // 0: no cap; otherwise stop after that many strings
	n     int
}

func forInputs(c *rt.Ctx, t *typ, quick bool, f func(d []byte)) { forInputsN(c, t, quick, 0, f) }

func forInputsN(c *rt.Ctx, t *typ, quick bool, limit int, f func(d []byte)) {
	g := &inputs{c: c, t: t, f: f, quick: quick, lim: limit}
	g.valid()
	g.offsetTables()
	g.short()
}

func (g *inputs) full() bool { return g.lim != 0 && g.n >= g.lim }

func (g *inputs) out(d []byte) {
	if g.full() {
		return
	}
	if !g.c.First(d) {
		return
	}
	g.n++
	g.c.State()
	g.c.Case(func() string { return fmt.Sprintf("input (%d bytes) %s", len(d), hexs(d)) })
	g.f(d)
}

func (g *inputs) all(alpha []byte, maxLen int) {
	buf := make([]byte, maxLen)
	var rec func(n int)
	rec = func(n int) {
		g.out(buf[:n])
		if n == maxLen || g.full() {
			return
		}
		for _, a := range alpha {
			buf[n] = a
			rec(n + 1)
		}
	}
	rec(0)
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

func (g *inputs) short() {
	g.all(allBytes(), 1)
	small := new(big.Int).SetUint64(8)
	maxLen := g.t.S.MaxLen()
	if g.quick {
		if maxLen.Cmp(small) <= 0 {
			g.all(allBytes(), 2)
		}
		g.all([]byte{0, 1, 4}, 7)
		g.all([]byte{0, 1, 2, 4, 8, 0x80, 0xff}, 4)
	} else {
		g.all(allBytes(), 2)
		g.all([]byte{0, 1, 4, 8}, 8)
		g.all([]byte{0, 1}, 13)
		g.all([]byte{0, 1, 2, 4, 5, 8, 0x80, 0xff}, 5)
	}
}

// offsetTables: every combination of offset values around the valid range, for small totals.
func (g *inputs) offsetTables() {
	s := g.t.S
	for s.Kind == model.KPtr {
		s = s.Elem
	}
	if s.Fixed() {
		return
	}
	type tmpl struct {
		fixed []byte
		at    []int
	}
	var ts []tmpl
	switch {
	case s.Kind == model.KCont:
		var t tmpl
		for _, f := range s.Fields {
			if f.S.Fixed() {
				t.fixed = append(t.fixed, model.Ser(f.S, model.MinVal(f.S))...)
			} else {
				t.at = append(t.at, len(t.fixed))
				t.fixed = append(t.fixed, 0, 0, 0, 0)
			}
		}
		ts = append(ts, t)
	case (s.Kind == model.KList || s.Kind == model.KVec) && !s.Elem.Fixed():
		for n := 1; n <= 3; n++ {
			if s.Kind == model.KVec && uint64(n) != s.N && !(n == 3 && s.N == 0) {
				continue
			}
			var t tmpl
			for i := 0; i < n; i++ {
				t.at = append(t.at, 4*i)
			}
			t.fixed = make([]byte, 4*n)
			ts = append(ts, t)
		}
	}
	for _, t := range ts {
		if len(t.at) > 4 || len(t.fixed) > 120 {
			continue
		}
		F := len(t.fixed)
		extra := 5
		if len(t.at) >= 4 {
			extra = 2
		}
		if !g.quick {
			extra += 2
		}
		for total := F; total <= F+extra; total++ {
			for _, fill := range []byte{0, 1} {
				d := make([]byte, total)
				copy(d, t.fixed)
				for i := F; i < total; i++ {
					d[i] = fill
				}
				var rec func(k int)
				rec = func(k int) {
					if k == len(t.at) {
						g.out(d)
						return
					}
					lo := max(0, F-2)
					for o := lo; o <= total+1; o++ {
						binary.LittleEndian.PutUint32(d[t.at[k]:], uint32(o))
						rec(k + 1)
					}
				}
				rec(0)
			}
		}
	}
}

var byteAlpha = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff}

// bases picks small values of the type: all shapes of the small bound and some fills.
func (g *inputs) bases() []*model.Val {
	b := model.SmallBound()
	maxN := 24
	if !g.quick {
		b.ShapeCap = 24
		maxN = 120
	}
	var out []*model.Val
	shapes := model.Shapes(g.t.S, &b, 0)
	step := 1
	if len(shapes) > maxN {
		step = len(shapes)/maxN + 1
	}
	for i := 0; i < len(shapes); i += step {
		out = append(out, model.Filled(g.t.S, shapes[i], model.FillCount))
		if i%3 == 0 {
			out = append(out, model.Filled(g.t.S, shapes[i], model.FillZero))
		}
	}
	if v, ok := model.MaxVal(g.t.S, 600); ok {
		out = append(out, v, model.Filled(g.t.S, v, model.FillCount))
	}
	if len(shapes) > 0 {
		out = append(out, model.Filled(g.t.S, shapes[len(shapes)-1], model.FillOnes))
	}
	return out
}

func (g *inputs) valid() {
	s := g.t.S
	for _, v := range g.bases() {
		d := model.Ser(s, v)
		g.out(d)
		model.Faults(s, v, func(f model.Fault) { g.out(model.SerFault(s, v, f)) })
		model.OverLimit(s, v, 2100, func(v *model.Val) { g.out(model.Ser(s, v)) })
		g.around(d)
		if g.full() {
			return
		}
	}
}

func (g *inputs) around(d []byte) {
	n := len(d)
	buf := make([]byte, 0, n+64)
	clone := func() []byte { return append(buf[:0], d...) }
	dense, word := 40, 64
	if !g.quick {
		dense, word = 100, 200
	}
	stride := 1
	if n > 400 {
		stride = n/200 + 1
	}
	for k := 0; k < n; k += stride {
		g.out(d[:k])
	}
	for k := max(0, n-9); k < n; k++ {
		g.out(d[:k])
	}
	for _, x := range []byte{0, 1, 0xff} {
		b := clone()
		for k := 0; k < 9; k++ {
			b = append(b, x)
			g.out(b)
		}
		for k := 0; k < 32; k++ {
			b = append(b, x)
		}
		g.out(b)
	}
	b := clone()
	for i := 0; i < n; i += stride {
		if n <= dense {
			for x := 0; x < 256; x++ {
				b[i] = byte(x)
				g.out(b)
			}
		} else {
			for _, x := range byteAlpha {
				b[i] = x
				g.out(b)
			}
			for _, dx := range []byte{1, 2, 3, 4, 8, 0x100 - 1, 0x100 - 2, 0x100 - 4, 0x100 - 8} {
				b[i] = d[i] + dx
				g.out(b)
			}
			for bit := 0; bit < 8; bit++ {
				b[i] = d[i] ^ 1<<bit
				g.out(b)
			}
		}
		b[i] = d[i]
	}
	if n <= word*4 {
		for i := 0; i+4 <= n; i++ {
			if n > word && i%4 != 0 {
				continue
			}
			old := binary.LittleEndian.Uint32(d[i:])
			try := func(w uint32) {
				binary.LittleEndian.PutUint32(b[i:], w)
				g.out(b)
			}
			for _, dl := range []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 64, 256, 65536} {
				try(old + uint32(dl))
				try(old - uint32(dl))
			}
			for _, w := range []uint32{0, 1, 2, 3, 4, 5, 7, 8, uint32(n) - 4, uint32(n) - 1, uint32(n), uint32(n) + 1, uint32(n) + 4, 1<<31 - 1, 1 << 31, 1<<31 + 4, 1<<32 - 1, 1<<32 - 4, 1 << 30} {
				try(w)
			}
			copy(b[i:], d[i:i+4])
		}
		for i := 0; i <= n; i++ {
			for _, x := range []byte{0, 1, 0xff} {
				b2 := append(append(append(make([]byte, 0, n+1), d[:i]...), x), d[i:]...)
				g.out(b2)
			}
			for _, k := range []int{1, 2, 4, 8} {
				if i+k <= n {
					g.out(append(append(make([]byte, 0, n), d[:i]...), d[i+k:]...))
				}
			}
			if i+4 <= n {
				g.out(append(append(make([]byte, 0, n+4), d[:i+4]...), d[i:]...))
			}
		}
	}
	// pairs of byte changes
	if n <= 24 || (!g.quick && n <= 48) {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				for _, x := range []byte{1, 2, 4, 0x100 - 1, 0x100 - 2, 0x100 - 4} {
					for _, y := range []byte{1, 2, 4, 0x100 - 1, 0x100 - 2, 0x100 - 4} {
						b[i], b[j] = d[i]+x, d[j]+y
						g.out(b)
					}
				}
				b[i], b[j] = d[i], d[j]
			}
		}
	}
}
