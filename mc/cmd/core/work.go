package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// C27: what the operations cost follows the value, never the limits.

// treeCost is the number of hashes a tree of the given limit needs when all-padding subtrees come from a table.
func treeCost(count, limit uint64) (n uint64) {
	if limit <= 1 {
		return 0
	}
	for j := model.Depth(limit); j > 0; j-- {
		count = count/2 + count&1
		n += max(1, count)
	}
	return
}

type cost struct{ hashes, leaves, parts uint64 }

func (k *cost) tree(count, limit uint64) {
	k.hashes += treeCost(count, limit)
	k.leaves += count
}

func valueCost(s *model.Schema, v *model.Val, k *cost) {
	k.parts++
	lim := func(n, per uint64) uint64 { // ceil(n/per)
		if n%per == 0 {
			return n / per
		}
		return n/per + 1
	}
	switch s.Kind {
	case model.KBytesN, model.KBytes:
		k.tree(lim(uint64(len(v.B)), 32), lim(s.N, 32))
	case model.KBitvec, model.KBitlist:
		k.tree(lim(uint64(len(v.B)), 256), lim(s.N, 256))
	case model.KPtr:
		valueCost(s.Elem, v, k)
	case model.KVec, model.KList:
		if s.Elem.Kind == model.KBool || s.Elem.Kind == model.KUint {
			per := 32 / s.Elem.FixedPart()
			k.tree(lim(uint64(len(v.E)), per), lim(s.N, per))
		} else {
			k.tree(uint64(len(v.E)), s.N)
			for _, e := range v.E {
				valueCost(s.Elem, e, k)
			}
		}
	case model.KCont:
		k.tree(uint64(len(v.E)), uint64(len(v.E)))
		for i, e := range v.E {
			valueCost(s.Fields[i].S, e, k)
		}
	case model.KCustom:
		k.hashes++
	}
	k.hashes++ // mixing in the length
}

// allowed is the bound derived from the needed amount.
func allowed(n uint64) uint64 { return 2*n + 64 }

type discard struct{ n int }

func (d *discard) Write(p []byte) (int, error) { d.n += len(p); return len(p), nil }

// heapUsed gives the heap bytes allocated by f.
func heapUsed(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func checkCost(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
	var k cost
	valueCost(t.S, v, &k)
	p := model.NewGo(t.S, v)
	hashes := uint64(0)
	h := htr.HashFn(func(in []byte) (o [32]byte) {
		if hashes++; hashes > allowed(k.hashes) {
			c.Fail("a root takes more than %d hashes; a tree with this content needs %d", hashes, k.hashes)
		}
		o[0] = in[0]
		return
	})
	sd, signed := t.D.(types.SignedSSZ)
	w := &discard{}
	rd := bytes.NewReader(ser)
	ok := !t.S.HasZeroSizeListElem()
	c.Trans(5)
	c.Validated(5)
	val := p.Interface()
	mem := heapUsed(func() {
		zssz.SizeOf(val, t.D)
		zssz.Encode(w, val, t.D)
		zssz.HashTreeRoot(h, val, t.D)
		if signed {
			hashes = 0
			zssz.SigningRoot(h, val, sd)
		}
		if ok {
			zssz.DryCheck(rd, uint64(len(ser)), t.D)
		}
	})
	// an encoding is buffered a few times at most on every level; hashing allocates its inputs and one node per level
	if top := 64*uint64(len(ser)) + 1024*k.hashes + 16384*k.parts + 1<<17; mem > top {
		c.Fail("sizing, encoding, hashing and checking a value of %d bytes (%d parts, %d hashes) allocated %d bytes", len(ser), k.parts, k.hashes, mem)
	}
}

// chains of types: every way to wrap a custom leaf depth times.
type chain struct {
	name  string
	t     reflect.Type
	depth int
}

type (
	wl1[T any] = universe.L[T, universe.N3]
	wl4[T any] = wl1[wl1[wl1[wl1[T]]]]
	ws4[T any] = universe.S2[uint8, universe.S2[T, uint8]]
	wm4[T any] = wl1[universe.S2[uint8, [1]*T]]
)

func chains(quick bool) []chain {
	leaf := func(n string, t reflect.Type, d int) chain { return chain{n, t, d} }
	cs := []chain{
		leaf("CStr", reflect.TypeFor[CStr](), 0),
		leaf("CInt", reflect.TypeFor[CInt](), 0),
		leaf("L^4[CStr]", reflect.TypeFor[wl4[CStr]](), 4),
		leaf("L^8[CStr]", reflect.TypeFor[wl4[wl4[CStr]]](), 8),
		leaf("L^12[CStr]", reflect.TypeFor[wl4[wl4[wl4[CStr]]]](), 12),
		leaf("L^12[CInt]", reflect.TypeFor[wl4[wl4[wl4[CInt]]]](), 12),
		leaf("(S2 S2)^4[CStr]", reflect.TypeFor[ws4[ws4[ws4[ws4[CStr]]]]](), 8),
		leaf("(L S2 [1] *)^3[CStr]", reflect.TypeFor[wm4[wm4[wm4[CStr]]]](), 12),
		leaf("(L S2 [1] *)^3[CInt]", reflect.TypeFor[wm4[wm4[wm4[CInt]]]](), 12),
	}
	wraps := []struct {
		n string
		f func(t reflect.Type) reflect.Type
	}{
		{"*", reflect.PointerTo},
		{"[1]", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }},
		{"S1", func(t reflect.Type) reflect.Type {
			return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})
		}},
		{"S2", func(t reflect.Type) reflect.Type {
			return reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeFor[uint8]()}, {Name: "B", Type: t}})
		}},
		{"squash", func(t reflect.Type) reflect.Type {
			in := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})
			return reflect.StructOf([]reflect.StructField{{Name: "B", Type: in, Tag: `ssz:"squash"`}})
		}},
	}
	// all words over the wraps up to length 3, repeated until the depth is reached
	n := len(wraps)
	words := [][]int{}
	for l, cnt := 1, n; l <= 3; l, cnt = l+1, cnt*n {
		for x := 0; x < cnt; x++ {
			w, y := make([]int, l), x
			for i := range w {
				w[i], y = y%n, y/n
			}
			words = append(words, w)
		}
	}
	depth := 14
	if !quick {
		depth = 24
	}
	for _, base := range cs[:5] {
		for _, w := range words {
			c := base
			for d := 0; d < depth; d++ {
				x := wraps[w[d%len(w)]]
				c.t, c.name = x.f(c.t), x.n+" "+c.name
			}
			c.depth += depth * 2 // squash counts twice
			cs = append(cs, c)
		}
	}
	return cs
}

// oneLeaf: the values of a chain with one and (where there are lists) two leaves at the innermost list.
func oneLeaf(s *model.Schema, u, width uint64) *model.Val {
	switch s.Kind {
	case model.KCustom:
		return &model.Val{U: u}
	case model.KPtr:
		return oneLeaf(s.Elem, u, width)
	case model.KVec:
		v := &model.Val{}
		for i := uint64(0); i < s.N; i++ {
			v.E = append(v.E, oneLeaf(s.Elem, u, width))
		}
		return v
	case model.KList:
		v := &model.Val{E: []*model.Val{}}
		if s.Elem.Kind == model.KCustom {
			for i := uint64(0); i < width; i++ {
				v.E = append(v.E, oneLeaf(s.Elem, u, width))
			}
		} else {
			v.E = append(v.E, oneLeaf(s.Elem, u, width))
		}
		return v
	case model.KCont:
		v := &model.Val{}
		for _, f := range s.Fields {
			v.E = append(v.E, oneLeaf(f.S, u, width))
		}
		return v
	}
	return model.MinVal(s)
}

func checkChain(c *rt.Ctx, ch chain) {
	c.Case(func() string { return "definition of " + ch.name })
	c.State()
	refs, asked := 0, 0
	s, err := model.FromTypeWith(ch.t, func(t reflect.Type) *model.Schema {
		refs++
		if d, ok := customDefs[t]; ok {
			return d.schema(t)
		}
		return nil
	})
	if err != nil {
		panic("harness: " + err.Error())
	}
	var f types.SSZFactoryFn
	f = func(t reflect.Type) (types.SSZ, error) {
		asked++
		c.Tick()
		if asked > 1<<20 {
			c.Fail("the factory was consulted over a million times for a type of %d parts", refs)
		}
		if d, ok := customDefs[t]; ok {
			return d, nil
		}
		return types.DefaultSSZFactory(f, t)
	}
	d, err := f(ch.t)
	if err != nil {
		c.Fail("no definition: %v", err)
	}
	c.Trans(1)
	c.Validated(1)
	if asked > 2*refs+8 {
		c.Fail("the factory was consulted %d times for a type of %d parts", asked, refs)
	}
	t := &typ{universe.Entry{Name: ch.name, T: ch.t}, s, d}
	for _, width := range []uint64{0, 1, 3} {
		for u := uint64(0); u < 4; u++ {
			v := oneLeaf(s, u, width)
			ser := model.Ser(s, v)
			c.State()
			c.Case(func() string { return ch.name + ": value " + clip(v.String(), 300) })
			c.Trans(5)
			c.Validated(5)
			n := customCount(s, v)
			top := 2*n*(ch.depth+1) + 8
			p := model.NewGo(s, v)
			run := func(what string, op func() error) {
				clog = customLog{}
				if err := op(); err != nil {
					c.Fail("%s: %v", what, err)
				}
				for i, x := range []int{clog.enc, clog.size, clog.dry, clog.decPlain + clog.decFuzz, clog.htr, clog.pretty} {
					if x > top {
						c.Fail("%s of a value with %d custom parts below %d levels calls %s %d times", what, n, ch.depth, []string{"Encode", "SizeOf", "DryCheck", "Decode", "HashTreeRoot", "Pretty"}[i], x)
					}
				}
			}
			run("SizeOf", func() error { zssz.SizeOf(p.Interface(), d); return nil })
			run("Encode", func() error { _, err := zssz.Encode(io.Discard, p.Interface(), d); return err })
			run("HashTreeRoot", func() error { zssz.HashTreeRoot(shaFn, p.Interface(), d); return nil })
			run("DryCheck", func() error { return zssz.DryCheck(bytes.NewReader(ser), uint64(len(ser)), d) })
			run("Decode", func() error { return decodeInto(t, fresh(t), ser) })
			run("Pretty", func() error { prettyText(t, " ", p); return nil })
			if width == 0 && u > 0 {
				break
			}
		}
	}
}

var c27 = &rt.Check{
	ID: "C27", Level: "model_checking",
	Rule: "hashes and leaf reads of Merkleize and ConstructProof for all counts and limits in the bound and limits around every power of two to 2^64-1; hashes and heap bytes of sizing, encoding, hashing and dry-checking every value in the bound of all types, with limits to 2^64-1; calls of custom leaves under every repeated word of up to three wrappings 14 (24) levels deep; state = (count, limit, index) or (type, value)",
	Assumptions: []string{
		"allowed: twice the hashes of the padded tree with tabulated zero subtrees, plus 64; 64 bytes of heap per encoded byte, 1 KiB per hash, 16 KiB per part, plus 128 KiB; 2 calls per part and level of nesting, plus 8",
	},
	Units: func(quick bool) []rt.Unit {
		var us []rt.Unit
		maxCount := uint64(70)
		if !quick {
			maxCount = 300
		}
		counts := []uint64{127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4095, 4097}
		for n := uint64(0); n <= maxCount; n++ {
			counts = append(counts, n)
		}
		for _, n := range counts {
			us = append(us, rt.Unit{Name: fmt.Sprintf("tree of %d leaves", n), Run: func(c *rt.Ctx) {
				lims := hugeLimits(n)
				for l := n; l <= 2*n+40; l++ {
					lims = append(lims, l)
				}
				leaf := make([]byte, 32)
				var hashes, asked, need uint64
				h := htr.HashFn(func(in []byte) (o [32]byte) {
					if hashes++; hashes > allowed(need) {
						c.Fail("more than %d hashes, needed are %d", hashes, need)
					}
					return
				})
				lf := func(i uint64) []byte {
					if asked++; asked > allowed(n) {
						c.Fail("over %d reads of %d leaves", asked, n)
					}
					return leaf
				}
				for _, l := range lims {
					need, hashes, asked = treeCost(n, l), 0, 0
					c.State()
					c.Case(func() string { return fmt.Sprintf("Merkleize count %d limit %d", n, l) })
					c.Trans(1)
					c.Validated(1)
					mem := heapUsed(func() { merkle.Merkleize(h, n, l, lf) })
					if mem > 1024*need+1<<17 {
						c.Fail("the root allocated %d bytes for %d hashes", mem, need)
					}
					idx := []uint64{0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, l / 2, l - 2, l - 1}
					for _, i := range idx {
						if i >= l {
							continue
						}
						c.State()
						c.Case(func() string { return fmt.Sprintf("ConstructProof count %d limit %d index %d", n, l, i) })
						c.Trans(1)
						c.Validated(1)
						hashes, asked = 0, 0
						merkle.ConstructProof(h, n, l, lf, i)
					}
				}
			}})
		}
		for _, part := range splitChains(chains(quick), 24) {
			us = append(us, rt.Unit{Name: "chains from " + part[0].name, Run: func(c *rt.Ctx) {
				for _, ch := range part {
					checkChain(c, ch)
				}
			}})
		}
		return append(us, valueUnits(quick, checkCost, checkCost)...)
	},
}

func splitChains(xs []chain, n int) [][]chain {
	var out [][]chain
	for i := 0; i < n; i++ {
		a, b := len(xs)*i/n, len(xs)*(i+1)/n
		if a < b {
			out = append(out, xs[a:b])
		}
	}
	return out
}
