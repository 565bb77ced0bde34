package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

const longLimit = 1 << 20

// dynLong runs f for long lists of every kind of element.
func dynLong(what string, f func(c *rt.Ctx, t *typ)) []rt.Unit {
	var us []rt.Unit
	for _, e := range append(universe.Dynamic[:len(universe.Dynamic):len(universe.Dynamic)], universe.DynMore...) {
		us = append(us, rt.Unit{Name: "long " + what + " " + e.Name, Run: func(c *rt.Ctx) {
			universe.DynLimit = longLimit
			f(c, build(c, e))
		}})
	}
	return us
}

// around: the numbers near powers of two (and of ten) from lo to hi.
func around(lo, hi int) []int {
	var ns []int
	for k := 16; k <= hi; k *= 2 {
		for _, n := range []int{k - 1, k, k + 1, k * 5 / 4} {
			if n >= lo && n <= hi {
				ns = append(ns, n)
			}
		}
	}
	for k := 50; k <= hi; k *= 10 {
		for _, n := range []int{k, k + 1, 2 * k, 2*k + 1} {
			if n >= lo && n <= hi {
				ns = append(ns, n)
			}
		}
	}
	return ns
}

// places: positions worth changing in something of n parts.
func places(n int, many bool) []int {
	ps := []int{0, 1, n / 3, n / 2, n/2 + 1, n - 65, n - 33, n - 17, n - 9, n - 8, n - 5, n - 4, n - 3, n - 2, n - 1}
	if many {
		for k := 4; k < n; k *= 2 {
			ps = append(ps, k-1, k, k+1)
		}
		ps = append(ps, 10, 100, 1000, 10000)
	} else {
		ps = append(ps, 64, 256, 1024, 4096)
	}
	seen := map[int]bool{}
	out := ps[:0]
	for _, p := range ps {
		if p >= 0 && p < n && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// longInputs yields valid encodings of long lists, with single changes, cut or extended.
func longInputs(what string, quick bool, f func(c *rt.Ctx, t *typ, d []byte)) []rt.Unit {
	return dynLong(what, func(c *rt.Ctx, t *typ) {
		hi := 5000
		ns := around(9, hi)
		ns = append(ns, 10001, 16385)
		if !quick {
			ns = append(ns, around(hi, 70000)...)
		}
		for _, n := range ns {
			for fill, v := range lenVals(t.S, uint64(n)) {
				d := model.Ser(t.S, v)
				in := func(what string, x []byte) {
					c.State()
					c.Case(func() string { return fmt.Sprintf("%d elements, %s: %s", n, what, hexs(x)) })
					f(c, t, x)
				}
				in("valid", d)
				in("one more byte", append(d[:len(d):len(d)], 0))
				in("one byte less", d[:len(d)-1])
				in("half", d[:len(d)/2])
				alpha := []byte{0, 1, 2, 0x80, 0xff}
				many := fill == 0 && n <= 5000
				if n > 2000 {
					alpha = []byte{2, 0x80}
				}
				for _, p := range places(len(d), many) {
					old := d[p]
					for _, x := range alpha {
						if x != old {
							d[p] = x
							in(fmt.Sprintf("byte %d is %d", p, x), d)
						}
					}
					d[p] = old
				}
				// whole words, where offsets may be
				for _, p := range places(len(d)/4, many && n <= 1100) {
					old := binary.LittleEndian.Uint32(d[4*p:])
					for _, x := range []uint32{old + 1, old - 1, uint32(len(d)), uint32(len(d)) + 1, 0, 1<<32 - 1} {
						binary.LittleEndian.PutUint32(d[4*p:], x)
						in(fmt.Sprintf("word %d is %d", p, x), d)
					}
					binary.LittleEndian.PutUint32(d[4*p:], old)
				}
			}
		}
	})
}

// longHistories: sequences of decodes of lists of very different lengths into one destination.
func longHistories(quick bool) []rt.Unit {
	return dynLong("histories of", func(c *rt.Ctx, t *typ) {
		ns := []uint64{0, 1, 17, 63, 64, 65, 129, 255, 256, 257, 513, 1023, 1024, 1025, 2049, 4096, 4097, 5000}
		depth3 := []uint64{0, 1, 65, 257, 1025, 4097}
		if !quick {
			ns = append(ns, 127, 128, 511, 512, 2048, 8193, 10001, 16385, 32769, 65537)
			depth3 = ns[:18]
		}
		type ev struct {
			name string
			n    uint64
			fill int
			cut  bool
			d    []byte
		}
		var evs []ev
		for _, n := range ns {
			for fill, v := range lenVals(t.S, n) {
				d := model.Ser(t.S, v)
				evs = append(evs, ev{fmt.Sprintf("%d elements %d", n, fill), n, fill, false, d})
				if fill == 1 && n > 0 {
					evs = append(evs, ev{fmt.Sprintf("%d elements %d, cut off", n, fill), n, fill, true, d})
				}
			}
		}
		step := func(e ev, p reflect.Value) error {
			if e.cut {
				return zssz.Decode(bytes.NewReader(e.d[:len(e.d)-1]), uint64(len(e.d)), p.Interface(), t.D)
			}
			return decodeInto(t, p, e.d)
		}
		play := func(init string, p reflect.Value, seq ...ev) {
			c.State()
			c.Case(func() string {
				s := init
				for _, e := range seq {
					s += " -> " + e.name
				}
				return s
			})
			var err error
			for _, e := range seq {
				err = step(e, p)
			}
			c.Trans(len(seq))
			c.Validated(1)
			last := seq[len(seq)-1]
			if last.cut {
				if err == nil {
					c.Fail("success although the input ended early")
				}
				return
			}
			if err != nil {
				c.Fail("error %v; on a fresh destination there is none", err)
			}
			if got := valueBytes(t, p); !bytes.Equal(got, last.d) {
				c.Fail("value %s; on a fresh destination %s", hexs(got), hexs(last.d))
			}
		}
		for _, a := range evs {
			play("fresh", fresh(t), a)
			for _, b := range evs {
				if !b.cut {
					play("fresh", fresh(t), a, b)
				}
			}
			// a destination with rubbish in its spare capacity
			if a.cut || a.fill == 0 {
				continue
			}
			for _, b := range evs {
				if !b.cut && b.n <= 6000 {
					g := &guards{}
					p := fresh(t)
					g.fillGo(t.S, lenVals(t.S, min(a.n, 300))[1], p.Elem(), int(a.n))
					play(fmt.Sprintf("%d elements, spare capacity %d", min(a.n, 300), a.n), p, b)
				}
			}
		}
		in := func(n uint64) bool {
			for _, k := range depth3 {
				if k == n {
					return true
				}
			}
			return false
		}
		for _, a := range evs {
			for _, b := range evs {
				for _, d := range evs {
					if in(a.n) && in(b.n) && in(d.n) && !d.cut {
						play("fresh", fresh(t), a, b, d)
					}
				}
			}
		}
	})
}

// longFuzz: fuzzing inputs that make long lists.
func longFuzz(quick bool) []rt.Unit {
	return dynLong("fuzzed", func(c *rt.Ctx, t *typ) {
		if !fuzzInDomain(t) {
			return
		}
		ns := around(40, 5000)
		if !quick {
			ns = append(ns, around(5000, 140000)...)
		} else {
			ns = append(ns, 16385, 32769, 65537, 90001, 140001)
		}
		lo := int(t.D.FuzzMinLen())
		for _, n := range ns {
			for _, l := range []int{n, lo + n, 8 + n} {
				if l < lo {
					continue
				}
				for k, f := range [][]byte{make([]byte, l), bytes.Repeat([]byte{0xff}, l), pattern(l), bytes.Repeat([]byte{1}, l)} {
					for _, w := range []uint64{0, 7, uint64(n), uint64(n) - 1, uint64(n) / 2, uint64(n) / 8, uint64(l) - 8, uint64(l) / 3, longLimit - 1, longLimit, 1<<64 - 1} {
						for _, at := range []int{0, 1, 2, 8, 9} {
							if quick && n > 20000 && at > 0 {
								continue
							}
							if at+8 > l || (at > 2 || k > 1) && w > uint64(n) {
								continue
							}
							x := append([]byte{}, f...)
							binary.LittleEndian.PutUint64(x[at:], w)
							if !c.First(x) {
								continue
							}
							c.State()
							c.Case(func() string { return fmt.Sprintf("input of %d bytes, fill %d, word %d at %d", l, k, w, at) })
							fuzzOne(c, t, x, 0, true)
						}
					}
				}
			}
		}
	})
}

// longMemory: long lists decoded into (and read from) memory between guards.
func longMemory(quick bool) []rt.Unit {
	hi := 5000
	if asan && quick {
		hi = 1100
	}
	return dynLong("memory of", func(c *rt.Ctx, t *typ) {
		after := func(g *guards, p reflect.Value, what string) {
			c.Trans(1)
			c.Validated(1)
			if err := g.check(); err != nil {
				c.Fail("%s: %v", what, err)
			}
			if err := model.WellFormed(t.S, p.Elem()); err != nil {
				c.Fail("%s: %v", what, err)
			}
		}
		for _, n := range around(15, hi) {
			for fill, v := range lenVals(t.S, uint64(n)) {
				d := model.Ser(t.S, v)
				type dest struct{ n, spare int }
				dests := []dest{{-1, 0}, {0, n - 1}, {0, n}, {0, n + 1}, {n, 0}, {n + 1, 0}, {n - 1, 1}, {n - 1, 0}, {n / 2, n / 2}, {2, 3}, {2 * n, 1}, {7, n / 4}, {n + n/8, 0}}
				for i, ds := range dests {
					for k := 0; k < 5; k++ {
						if k > 0 && (fill == 0 || n > 1100) && (i+k)%4 != 0 {
							continue
						}
						x := d
						switch k {
						case 1:
							x = append(d[:len(d):len(d)], 0)
						case 2:
							x = d[:len(d)-1]
						case 3:
							x = append([]byte{}, d...)
							x[len(x)/2] ^= 0x42
						}
						c.State()
						c.Case(func() string {
							return fmt.Sprintf("%d elements (input kind %d: %s) into %d elements with spare capacity %d", n, k, hexs(x), ds.n, ds.spare)
						})
						g := &guards{}
						p := g.guardedNew(t.T)
						if ds.n >= 0 {
							g.fillGo(t.S, lenVals(t.S, uint64(ds.n))[1], p.Elem(), ds.spare)
						}
						if k == 4 {
							if !fuzzInDomain(t) || uint64(len(d)) < t.D.FuzzMinLen() {
								continue
							}
							x = append([]byte{}, d...)
							binary.LittleEndian.PutUint64(x, uint64(n))
							zssz.DecodeFuzzBytes(bytes.NewReader(x), uint64(len(x)), p.Interface(), t.D)
						} else {
							zssz.Decode(bytes.NewReader(x), uint64(len(x)), p.Interface(), t.D)
						}
						after(g, p, "decode")
					}
				}
				for _, spare := range []int{0, 3} {
					c.State()
					c.Case(func() string { return fmt.Sprintf("reading operations on %d elements, spare capacity %d", n, spare) })
					g := &guards{}
					p := g.guardedNew(t.T)
					g.fillGo(t.S, v, p.Elem(), spare)
					w := &sinkWriter{}
					zssz.Encode(w, p.Interface(), t.D)
					zssz.SizeOf(p.Interface(), t.D)
					zssz.HashTreeRoot(shaFn, p.Interface(), t.D)
					if n < 1100 {
						zssz.Pretty(w, " ", p.Interface(), t.D)
					}
					after(g, p, "reading operations")
				}
			}
		}
	})
}

func sameShape(a, b *model.Val) bool {
	if len(a.B) != len(b.B) || len(a.E) != len(b.E) {
		return false
	}
	for i := range a.E {
		if !sameShape(a.E[i], b.E[i]) {
			return false
		}
	}
	return true
}

// longPure: purity with long lists: objects whose content changes in single places between the calls, decoded values that
// share nothing, nothing written.
func longPure(quick bool) []rt.Unit {
	return dynLong("purity of", func(c *rt.Ctx, t *typ) {
		ns := []int{33, 65, 129, 257, 513, 1025, 2050, 4097}
		if !quick {
			ns = append(ns, 9000, 16385, 65537)
		}
		buf := make([]byte, 1<<16)
		for _, n := range ns {
			v := lenVals(t.S, uint64(n))[1]
			d := model.Ser(t.S, v)
			if n <= 2050 {
				c.State()
				readOnly(c, t, v, d, 1, &buf)
			}
			longObject(c, t, n, v, d)
			longSharing(c, t, n, d)
		}
	})
}

func longObject(c *rt.Ctx, t *typ, n int, v *model.Val, d []byte) {
	defer restoreSHA()
	htr.InitZeroHashes(cheapHash)
	m := model.NewMerkler(cheapHash)
	type state struct {
		name string
		obj  reflect.Value
		set  func()
		ser  []byte
		root [32]byte
	}
	var states []state
	goVal := func(v *model.Val) reflect.Value {
		p := fresh(t)
		(&guards{}).fillGo(t.S, v, p.Elem(), 1)
		return p
	}
	p, q := goVal(v), goVal(v)
	add := func(name string, obj reflect.Value, v *model.Val, set func()) {
		states = append(states, state{name, obj, set, model.Ser(t.S, v), m.HTR(t.S, v)})
	}
	base := reflect.New(t.T)
	base.Elem().Set(p.Elem())
	orig := goVal(v)
	add("as built", p, v, func() {
		p.Elem().Set(base.Elem())
		overwrite(t.T, p.UnsafePointer(), orig.UnsafePointer())
	})
	seen := map[int]bool{}
	for _, pos := range []int{0, len(d) / 4, len(d) / 2, len(d) * 3 / 4, len(d) - 33, len(d) - 2, len(d) - 1} {
		if pos < 0 || seen[pos] {
			continue
		}
		seen[pos] = true
		x := append([]byte{}, d...)
		x[pos] ^= 1
		v2, ok := model.Deser(t.S, x)
		if !ok || !sameShape(v, v2) {
			continue
		}
		src := goVal(v2)
		add(fmt.Sprintf("changed in place at byte %d of the encoding", pos), p, v2, func() {
			p.Elem().Set(base.Elem())
			overwrite(t.T, p.UnsafePointer(), src.UnsafePointer())
		})
		if pos == len(d)/2 {
			add("another object, changed in the middle", q, v2, func() { overwrite(t.T, q.UnsafePointer(), src.UnsafePointer()) })
		}
	}
	add("another object", q, v, func() { overwrite(t.T, q.UnsafePointer(), orig.UnsafePointer()) })
	if v2 := lenVals(t.S, uint64(n-1))[1]; t.T.Kind() == reflect.Slice && base.Elem().Len() == n {
		add("shortened", p, v2, func() {
			overwrite(t.T, base.UnsafePointer(), orig.UnsafePointer())
			p.Elem().Set(base.Elem().Slice(0, n-1))
		})
	}
	ops := []struct {
		name string
		run  func(s *state) string
	}{
		{"HashTreeRoot", func(s *state) string {
			if r := zssz.HashTreeRoot(archFn, s.obj.Interface(), t.D); r != s.root {
				return fmt.Sprintf("root %x instead of %x", r, s.root)
			}
			return ""
		}},
		{"SizeOf and Encode", func(s *state) string {
			if x := zssz.SizeOf(s.obj.Interface(), t.D); x != uint64(len(s.ser)) {
				return fmt.Sprintf("size %d instead of %d", x, len(s.ser))
			}
			if x, k, err := encode(t, s.obj); err != nil || k != len(s.ser) || !bytes.Equal(x, s.ser) {
				return fmt.Sprintf("encodes to %s (%d, %v) instead of %s", hexs(x), k, err, hexs(s.ser))
			}
			return ""
		}},
		{"Decode of the encoding", func(s *state) string {
			o := fresh(t)
			if err := decodeInto(t, o, s.ser); err != nil {
				return fmt.Sprint("decode: ", err)
			}
			if x := valueBytes(t, o); !bytes.Equal(x, s.ser) {
				return fmt.Sprintf("decodes to %s instead of %s", hexs(x), hexs(s.ser))
			}
			return ""
		}},
	}
	for i := range states {
		for j := range states {
			for _, o1 := range ops {
				for k, o2 := range ops {
					if k == 2 && o1.name != o2.name {
						continue
					}
					c.State()
					c.Case(func() string {
						return fmt.Sprintf("%d elements: %s of the object %s -> %s of the object %s", n, o1.name, states[i].name, o2.name, states[j].name)
					})
					states[i].set()
					o1.run(&states[i])
					states[j].set()
					c.Trans(2)
					c.Validated(1)
					if msg := o2.run(&states[j]); msg != "" {
						c.Fail("%s", msg)
					}
				}
			}
		}
	}
}

func longSharing(c *rt.Ctx, t *typ, n int, d []byte) {
	c.State()
	c.Case(func() string { return fmt.Sprintf("decode %d elements twice", n) })
	in := append([]byte{}, d...)
	p, q := fresh(t), fresh(t)
	for _, o := range []reflect.Value{p, q} {
		c.Trans(1)
		if err := decodeInto(t, o, in); err != nil {
			c.Fail("decode failed: %v", err)
		}
	}
	if !bytes.Equal(in, d) {
		c.Fail("the input was modified")
	}
	ss := []span{{p.Pointer(), p.Pointer() + t.T.Size()}, {q.Pointer(), q.Pointer() + t.T.Size()}}
	ss = spans(t.T, p.UnsafePointer(), ss)
	ss = spans(t.T, q.UnsafePointer(), ss)
	a := uintptr(unsafe.Pointer(&in[0]))
	ss = append(ss, span{a, a + uintptr(cap(in))})
	if a, b, bad := overlap(ss); bad {
		c.Fail("memory is shared between decoded values or with the input: %x..%x and %x..%x", a.a, a.b, b.a, b.b)
	}
	decodeInto(t, p, in[:len(in)-1]) // refused or another value
	for i := range in {
		in[i] = 0x77
	}
	if x := valueBytes(t, q); !bytes.Equal(x, d) {
		c.Fail("the decoded value became %s instead of %s", hexs(x), hexs(d))
	}
	c.Validated(1)
	for _, k := range ownMemory {
		s := append(append(make([]byte, 0, len(d)+100), d...), pattern(100)...)
		r := k.mk(s, len(d))
		o := fresh(t)
		c.Case(func() string { return fmt.Sprintf("decode %d elements from %s, then overwrite the stream", n, k.name) })
		c.Trans(1)
		c.Validated(1)
		if err := zssz.Decode(r, uint64(len(d)), o.Interface(), t.D); err != nil {
			c.Fail("decode failed: %v", err)
		}
		for i := range s {
			s[i] = 0x77
		}
		if x := valueBytes(t, o); !bytes.Equal(x, d) {
			c.Fail("the decoded value became %s instead of %s", hexs(x), hexs(d))
		}
	}
}
