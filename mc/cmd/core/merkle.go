package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/bits"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// symbolic is an injective "hash": every distinct input gets its own fresh output, so two trees have the same root
// exactly when they are the same tree.
type symbolic struct {
	m map[[64]byte][32]byte
	n uint64
}

func newSymbolic() *symbolic { return &symbolic{m: map[[64]byte][32]byte{}} }

func (s *symbolic) hash(in []byte) [32]byte {
	if len(in) != 64 {
		panic(fmt.Sprintf("the hash function was given %d bytes instead of 64", len(in)))
	}
	k := [64]byte(in)
	if o, ok := s.m[k]; ok {
		return o
	}
	s.n++
	var o [32]byte
	binary.LittleEndian.PutUint64(o[:], s.n)
	o[31], o[30] = 0xff, 0xa5
	s.m[k] = o
	return o
}

// restoreSHA puts the library's zero hashes back.
func restoreSHA() { htr.InitZeroHashes(sha256.Sum256) }

// hugeLimits are limits far beyond any count: around every power of two.
func hugeLimits(from uint64) []uint64 {
	var out []uint64
	for k := uint(0); k < 64; k++ {
		for d := -3; d <= 3; d++ {
			v := uint64(1)<<k + uint64(d)
			if k < 2 && d < 0 {
				continue
			}
			if v >= from {
				out = append(out, v)
			}
		}
	}
	out = append(out, ^uint64(0), ^uint64(0)-1, ^uint64(0)-2)
	return out
}

func leafSet(n uint64, pat int) [][32]byte {
	out := make([][32]byte, n)
	for i := range out {
		switch {
		case pat == 0: // all different
			binary.LittleEndian.PutUint64(out[i][8:], uint64(i)+1)
			out[i][31] = 0x11
		case pat == 1: // all zero
		case pat == 2: // all equal
			out[i][0], out[i][31] = 1, 2
		default: // bit set of zero leaves
			if pat>>(uint(i)&15)&1 == 0 {
				out[i][5] = byte(i) + 1
				out[i][6] = byte(i >> 8)
			}
		}
	}
	return out
}

// leafFn hands out leaves the way the library's own callers do: a slice that is only valid until the next call.
func leafFn(leaves [][32]byte, scratch bool) func(i uint64) []byte {
	var buf [32]byte
	return func(i uint64) []byte {
		if i >= uint64(len(leaves)) {
			panic(fmt.Sprintf("asked for leaf %d of %d", i, len(leaves)))
		}
		if scratch {
			buf = leaves[i]
			return buf[:]
		}
		return leaves[i][:]
	}
}

func checkMerkleize(c *rt.Ctx, sy *symbolic, m *model.Merkler, count, limit uint64, leaves [][32]byte, pat int) {
	c.State()
	c.Case(func() string { return fmt.Sprintf("Merkleize count %d limit %d leaf pattern %d", count, limit, pat) })
	orig := append([][32]byte{}, leaves...)
	want := m.Merkleize(leaves, limit)
	got := merkle.Merkleize(htr.HashFn(sy.hash), count, limit, leafFn(leaves, false))
	c.Trans(2)
	c.Validated(2)
	if got != want {
		c.Fail("root %x, the padded tree has root %x", got, want)
	}
	got = merkle.Merkleize(htr.HashFn(sy.hash), count, limit, leafFn(leaves, true))
	if got != want {
		c.Fail("root %x with reused leaf memory, the padded tree has root %x", got, want)
	}
	for i := range orig {
		if orig[i] != leaves[i] {
			c.Fail("leaf %d was modified", i)
		}
	}
}

var c16 = &rt.Check{
	ID: "C16", Level: "model_checking",
	Shift:       true,
	Rule:        "all leaf counts and limits in the bound, limits around every power of two up to 2^64-1, leaves all different / zero / equal / every zero pattern, hashed with an injective symbolic hash so that equal roots mean equal trees; depth function over all small numbers and structured 64-bit numbers; state = (count, limit, leaf pattern) or depth argument",
	Assumptions: []string{"counts above the bound are covered at selected sizes only"},
	Units: func(quick bool) []rt.Unit {
		maxCount, maxLimit := uint64(140), uint64(600)
		bigCounts := []uint64{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}
		depthAll := uint64(1) << 27
		patMax := uint64(6)
		if !quick {
			maxCount, maxLimit = 600, 1400
			bigCounts = append(bigCounts, 8191, 8192, 8193, 16385, 32767, 65535, 65536, 65537, 131073, 1<<20-1, 1<<20, 1<<20+1)
			depthAll = 1 << 32
			patMax = 11
		}
		if rt.Deep {
			maxCount, maxLimit = 1100, 2300
			depthAll = 1 << 34
			patMax = 13
			bigCounts = append(bigCounts, 1<<21-1, 1<<21+1, 1<<22+1)
		}
		var us []rt.Unit
		for n := uint64(0); n <= maxCount; n++ {
			us = append(us, rt.Unit{Name: fmt.Sprintf("count %d", n), Run: func(c *rt.Ctx) {
				defer restoreSHA()
				sy := newSymbolic()
				htr.InitZeroHashes(sy.hash)
				m := model.NewMerkler(sy.hash)
				leaves := leafSet(n, 0)
				for l := n; l <= maxLimit; l++ {
					checkMerkleize(c, sy, m, n, l, leaves, 0)
				}
				for _, l := range hugeLimits(maxLimit + 1) {
					checkMerkleize(c, sy, m, n, l, leaves, 0)
				}
				for pat := 1; pat <= 2; pat++ {
					pl := leafSet(n, pat)
					for _, l := range []uint64{n, n + 1, 2 * n, 1 << 40, ^uint64(0)} {
						checkMerkleize(c, sy, m, n, l, pl, pat)
					}
				}
				if n <= patMax {
					for pat := 3; pat < 1<<n+3; pat++ {
						pl := leafSet(n, pat)
						for l := n; l <= 2*n+2; l++ {
							checkMerkleize(c, sy, m, n, l, pl, pat)
						}
						checkMerkleize(c, sy, m, n, 1<<33, pl, pat)
					}
				}
			}})
		}
		for _, n := range bigCounts {
			us = append(us, rt.Unit{Name: fmt.Sprintf("big count %d", n), Run: func(c *rt.Ctx) {
				defer restoreSHA()
				h := func(in []byte) [32]byte { return cheapHash(in) }
				htr.InitZeroHashes(h)
				m := model.NewMerkler(h)
				leaves := leafSet(n, 0)
				for _, l := range []uint64{n, n + 1, 2 * n, 1<<20 + 2, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, ^uint64(0)} {
					if l < n {
						continue
					}
					c.State()
					c.Case(func() string { return fmt.Sprintf("Merkleize count %d limit %d", n, l) })
					c.Trans(1)
					c.Validated(1)
					if got, want := merkle.Merkleize(htr.HashFn(h), n, l, leafFn(leaves, true)), m.Merkleize(leaves, l); got != want {
						c.Fail("root %x, the padded tree has root %x", got, want)
					}
				}
			}})
		}
		const step = uint64(1) << 24
		for from := uint64(0); from < depthAll; from += step {
			us = append(us, rt.Unit{Name: fmt.Sprintf("depth of %d..", from), Run: func(c *rt.Ctx) {
				v := from
				c.Case(func() string { return fmt.Sprintf("GetDepth(%d)", v) })
				for v = from; v < from+step; v++ {
					if v >= 2 && int(merkle.GetDepth(v)) != bits.Len64(v-1) {
						c.Fail("depth %d, expected %d", merkle.GetDepth(v), bits.Len64(v-1))
					}
				}
				c.Count("depth arguments", int(step))
				c.Trans(int(step))
			}})
		}
		us = append(us, rt.Unit{Name: "depth of structured 64-bit numbers", Run: func(c *rt.Ctx) {
			chk := func(v uint64) {
				if v < 2 {
					return
				}
				c.State()
				c.Case(func() string { return fmt.Sprintf("GetDepth(%d)", v) })
				c.Trans(1)
				c.Validated(1)
				// reference: the smallest d with 2^d >= v, found by trying
				d := 0
				for d < 64 && uint64(1)<<d < v {
					d++
				}
				if int(merkle.GetDepth(v)) != d {
					c.Fail("depth %d, expected %d", merkle.GetDepth(v), d)
				}
			}
			for i := 0; i < 64; i++ {
				for d := uint64(0); d < 300; d++ {
					chk(uint64(1)<<i + d)
					chk(uint64(1)<<i - d)
				}
				for j := 0; j <= i; j++ {
					for k := 0; k <= j; k++ {
						v := uint64(1)<<i | uint64(1)<<j | uint64(1)<<k
						chk(v)
						chk(^v)
						chk(v - 1)
						chk(v + 1)
					}
				}
			}
			chk(^uint64(0))
		}})
		return us
	},
}

// cheapHash is a fast mixing function for large trees.
func cheapHash(in []byte) (o [32]byte) {
	if len(in) != 64 {
		panic(fmt.Sprintf("the hash function was given %d bytes instead of 64", len(in)))
	}
	var s [4]uint64
	s[0], s[1], s[2], s[3] = 0x9E3779B97F4A7C15, 0xBF58476D1CE4E5B9, 0x94D049BB133111EB, 0xD6E8FEB86659FD93
	for i := 0; i < 8; i++ {
		w := binary.LittleEndian.Uint64(in[i*8:])
		s[i&3] = bits.RotateLeft64(s[i&3]^w*0xff51afd7ed558ccd, 29+i)*0xc4ceb9fe1a85ec53 + s[(i+1)&3]
		s[(i+2)&3] ^= s[i&3] >> 17
	}
	for r := 0; r < 4; r++ {
		s[r] = bits.RotateLeft64(s[r]^s[(r+1)&3], 31) * 0x9E3779B97F4A7C15
		s[(r+3)&3] ^= s[r] >> 29
	}
	for i := range s {
		binary.LittleEndian.PutUint64(o[i*8:], s[i])
	}
	return
}

// levels of the non-padding part of the tree
func treeLevels(m *model.Merkler, leaves [][32]byte, depth int) [][][32]byte {
	lv := [][][32]byte{leaves}
	for d := 0; d < depth; d++ {
		cur := lv[d]
		next := make([][32]byte, (len(cur)+1)/2)
		for i := range next {
			r := m.ZH[d]
			if 2*i+1 < len(cur) {
				r = cur[2*i+1]
			}
			next[i] = m.Pair(cur[2*i], r)
		}
		lv = append(lv, next)
	}
	return lv
}

func checkProof(c *rt.Ctx, h htr.HashFn, m *model.Merkler, count, limit uint64, leaves [][32]byte, lv [][][32]byte, index uint64) {
	c.State()
	c.Case(func() string { return fmt.Sprintf("ConstructProof count %d limit %d index %d", count, limit, index) })
	br := merkle.ConstructProof(h, count, limit, leafFn(leaves, index&1 == 1), index)
	depth := model.Depth(limit)
	c.Trans(1)
	c.Validated(1)
	if len(br) != depth {
		c.Fail("branch of %d nodes, the tree has %d levels", len(br), depth)
	}
	var node [32]byte
	if index < count {
		node = leaves[index]
	}
	for j := 0; j < depth; j++ {
		sib := (index >> uint(j)) ^ 1
		want := m.ZH[j]
		if sib < uint64(len(lv[j])) {
			want = lv[j][sib]
		}
		if br[j] != want {
			c.Fail("branch node %d is %x, the sibling subtree has root %x", j, br[j], want)
		}
		if index>>uint(j)&1 == 1 {
			node = m.Pair(br[j], node)
		} else {
			node = m.Pair(node, br[j])
		}
	}
	want := m.ZH[depth]
	if len(lv[depth]) > 0 {
		want = lv[depth][0]
	}
	if node != want {
		c.Fail("folding the branch gives %x, the root is %x", node, want)
	}
}

var c17 = &rt.Check{
	ID: "C17", Level: "model_checking",
	Shift:       true,
	Rule:        "all leaf counts, limits and indices in the bound, selected larger counts with indices around the count, the powers of two and the limit, limits around every power of two up to 2^64-1 with indices around the count, the powers of two and the limit, hashed with an injective symbolic hash; every branch node compared with the true sibling subtree and the folded branch with the root that Merkleize returns; state = (count, limit, index)",
	Assumptions: []string{"leaf contents are all different (and all zero at one setting): with the injective hash the result is decided for any leaves unless the code inspects their contents"},
	Units: func(quick bool) []rt.Unit {
		maxCount, maxLimit := uint64(48), uint64(80)
		if !quick {
			maxCount, maxLimit = 140, 270
		}
		if rt.Deep {
			maxCount, maxLimit = 260, 520
		}
		var us []rt.Unit
		for _, n := range []uint64{255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4096, 4097, 65535, 65536, 65537} {
			us = append(us, rt.Unit{Name: fmt.Sprintf("big count %d", n), Run: func(c *rt.Ctx) {
				defer restoreSHA()
				htr.InitZeroHashes(cheapHash)
				m := model.NewMerkler(cheapHash)
				leaves := leafSet(n, 0)
				lims, step := []uint64{n, n + 1, 2 * n, 1<<20 + 2, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, ^uint64(0)}, uint64(1)
				if n > 5000 {
					// each proof hashes the whole tree
					lims, step = []uint64{n, 1<<20 + 2, 1 << 63, ^uint64(0)}, 3
				}
				for _, l := range lims {
					lv := treeLevels(m, leaves, model.Depth(l))
					seen := map[uint64]bool{}
					chk := func(i uint64) {
						if i < l && !seen[i] {
							seen[i] = true
							checkProof(c, cheapHash, m, n, l, leaves, lv, i)
						}
					}
					for i := uint64(0); i < 6; i++ {
						chk(i)
						chk(n/2 + i - 3)
						chk(n + i - 3)
						chk(l - 1 - i)
					}
					for k := uint(0); k < 64; k++ {
						for d := uint64(0); d < 3; d += step {
							chk(1<<k + d - 1)
							chk(n - 1<<k + d - 1)
							chk(l - 1<<k + d - 1)
						}
					}
				}
			}})
		}
		for n := uint64(0); n <= maxCount; n++ {
			us = append(us, rt.Unit{Name: fmt.Sprintf("count %d", n), Run: func(c *rt.Ctx) {
				defer restoreSHA()
				for pat := 0; pat < 3; pat++ {
					sy := newSymbolic()
					htr.InitZeroHashes(sy.hash)
					m := model.NewMerkler(sy.hash)
					leaves := leafSet(n, pat)
					prev := -1
					var lv [][][32]byte
					lims := []uint64{}
					if pat == 0 {
						for l := max(n, 1); l <= maxLimit; l++ {
							lims = append(lims, l)
						}
						lims = append(lims, hugeLimits(maxLimit+1)...)
					} else {
						lims = append(lims, max(1, n), n+1, 2*n+1, 1<<20)
					}
					for _, l := range lims {
						if d := model.Depth(l); d != prev {
							lv = treeLevels(m, leaves, d)
							prev = d
						}
						c.Case(func() string { return fmt.Sprintf("Merkleize count %d limit %d", n, l) })
						want := m.ZH[prev]
						if len(lv[prev]) > 0 {
							want = lv[prev][0]
						}
						if got := merkle.Merkleize(htr.HashFn(sy.hash), n, l, leafFn(leaves, false)); got != want {
							c.Fail("root %x, the tree has root %x", got, want)
						}
						if l <= maxLimit {
							for i := uint64(0); i < l; i++ {
								checkProof(c, sy.hash, m, n, l, leaves, lv, i)
							}
							continue
						}
						seen := map[uint64]bool{}
						chk := func(i uint64) {
							if i < l && !seen[i] {
								seen[i] = true
								checkProof(c, sy.hash, m, n, l, leaves, lv, i)
							}
						}
						for i := uint64(0); i <= n+2; i++ {
							chk(i)
						}
						for k := uint(0); k < 64; k++ {
							chk(1<<k - 1)
							chk(1 << k)
							chk(1<<k + 1)
							chk(l - 1 - 1<<k)
						}
						chk(l - 1)
						chk(l / 2)
						chk(l / 3)
					}
				}
			}})
		}
		return us
	},
}

// ---- C18

// directFn implements MerkleFn itself, without being a HashFn.
type directFn struct{ h func([]byte) [32]byte }

func (d *directFn) Combi(a, b [32]byte) [32]byte {
	var v [64]byte
	copy(v[:], a[:])
	copy(v[32:], b[:])
	return d.h(v[:])
}

func (d *directFn) MixIn(a [32]byte, i uint64) [32]byte {
	var v [64]byte
	copy(v[:], a[:])
	binary.LittleEndian.PutUint64(v[32:], i)
	return d.h(v[:])
}

type namedHash struct {
	name string
	h    func(in []byte) [32]byte
}

func need64(h func(in []byte) [32]byte) func(in []byte) [32]byte {
	return func(in []byte) [32]byte {
		if len(in) != 64 {
			panic(fmt.Sprintf("the hash function was given %d bytes instead of 64", len(in)))
		}
		return h(in)
	}
}

func hashFns() []namedHash {
	sy := newSymbolic()
	return []namedHash{
		{"sha256", need64(func(b []byte) [32]byte { return sha256.Sum256(b) })},
		{"symbolic", sy.hash},
		{"sha512/256", need64(func(b []byte) [32]byte { return sha512.Sum512_256(b) })},
		{"left half", need64(func(b []byte) (o [32]byte) { copy(o[:], b); return })},
		{"right half plus one", need64(func(b []byte) (o [32]byte) { copy(o[:], b[32:]); o[0]++; return })},
		{"xor", need64(func(b []byte) (o [32]byte) {
			for i := range o {
				o[i] = b[i] ^ b[i+32]*3
			}
			return
		})},
		{"constant", need64(func(b []byte) (o [32]byte) { o[7] = 9; return })},
		{"scribbling sha256", need64(func(b []byte) [32]byte {
			o := sha256.Sum256(b)
			for i := range b {
				b[i] = 0xdd
			}
			return o
		})},
		{"double sha256", need64(func(b []byte) [32]byte { x := sha256.Sum256(b); return sha256.Sum256(x[:]) })},
		{"mixing", cheapHash},
	}
}

var c18 = &rt.Check{
	ID: "C18", Level: "model_checking",
	Shift: true,
	Rule:  "all sequences (to the depth) of re-initializing the zero hashes with one of 10 hash functions, followed by roots of all types and values of the bound computed with that function (as HashFn and as an own MerkleFn implementation) and compared with the reference merkleization under the same function; long lists of 21 kinds to 2049 (32769) elements and their proofs under all functions; every hash input is asserted to have 64 bytes; state = (sequence of functions, type, value)",
	Units: func(quick bool) []rt.Unit {
		es := typesFor(true)
		hs := hashFns()
		var us []rt.Unit
		depth := 3
		hist := len(hs)
		if rt.Deep {
			depth = 4
		}
		us = append(us, longUnder(quick)...)
		// every function with every type
		for hi := range hs {
			for part := 0; part < 8; part++ {
				us = append(us, rt.Unit{Name: fmt.Sprintf("%s, types part %d", hs[hi].name, part), Run: func(c *rt.Ctx) {
					defer restoreSHA()
					h := hashFns()[hi]
					b := model.SmallBound()
					if rt.Deep {
						b = *bound(true)
					}
					m := model.NewMerkler(h.h)
					htr.InitZeroHashes(h.h)
					checkZeroHashes(c, m)
					for i, e := range es {
						if i%8 != part {
							continue
						}
						rootsUnder(c, build(c, e), h, m, &b, quick)
					}
				}})
			}
		}
		// switching histories
		sel := universe.Find("uint16", "L[uint64, N100]", "BL[N257]", "S1[Squash1]", "[2]L[byte, N5]")
		if sel == nil {
			sel = es[:5]
		}
		seq := make([]int, 0, depth)
		var rec func()
		rec = func() {
			if len(seq) > 1 {
				s := append([]int{}, seq...)
				us = append(us, rt.Unit{Name: fmt.Sprintf("history %v", s), Run: func(c *rt.Ctx) {
					defer restoreSHA()
					b := model.SmallBound()
					b.MaxItems = 8
					fns := hashFns()
					// definitions live across all switches
					var ts []*typ
					for _, e := range sel {
						ts = append(ts, build(c, e))
					}
					for k, i := range s {
						h := fns[i]
						m := model.NewMerkler(h.h)
						htr.InitZeroHashes(h.h)
						c.Case(func() string { return fmt.Sprintf("switch %d to %s", k, h.name) })
						checkZeroHashes(c, m)
						for _, t := range ts {
							rootsUnder(c, t, h, m, &b, true)
						}
						for _, n := range []uint64{0, 1, 3, 4, 5} {
							leaves := leafSet(n, 0)
							for _, l := range []uint64{5, 9, 1 << 40, ^uint64(0)} {
								c.Case(func() string { return fmt.Sprintf("%s: Merkleize count %d limit %d after %v", h.name, n, l, s[:k]) })
								c.State()
								c.Trans(2)
								c.Validated(2)
								if got, want := merkle.Merkleize(htr.HashFn(h.h), n, l, leafFn(leaves, false)), m.Merkleize(leaves, l); got != want {
									c.Fail("root %x, expected %x", got, want)
								}
								checkProof(c, h.h, m, n, l, leaves, treeLevels(m, leaves, model.Depth(l)), n%l)
							}
						}
					}
				}})
			}
			if len(seq) == depth {
				return
			}
			for i := 0; i < hist; i++ {
				seq = append(seq, i)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
		return us
	},
}

func checkZeroHashes(c *rt.Ctx, m *model.Merkler) {
	c.Case(func() string { return "zero hash levels" })
	if len(htr.ZeroHashes) < 65 {
		c.Fail("only %d zero hash levels", len(htr.ZeroHashes))
	}
	for i := 0; i <= 64; i++ {
		c.Trans(1)
		c.Validated(1)
		if htr.ZeroHashes[i] != m.ZH[i] {
			c.Fail("zero hash of level %d is %x, expected %x", i, htr.ZeroHashes[i], m.ZH[i])
		}
	}
}

func rootsUnder(c *rt.Ctx, t *typ, h namedHash, m *model.Merkler, b *model.Bound, quick bool) {
	shapes := model.Shapes(t.S, b, 0)
	fills := []model.Fill{model.FillCount, model.FillOnes}
	if quick {
		fills = fills[:1]
	}
	for _, sh := range shapes {
		for _, f := range fills {
			rootUnder(c, t, h, m, model.Filled(t.S, sh, f))
		}
	}
}

func rootUnder(c *rt.Ctx, t *typ, h namedHash, m *model.Merkler, v *model.Val) {
	c.State()
	c.Case(func() string { return h.name + ": " + t.Name + " " + clip(v.String(), 1000) })
	p := model.NewGo(t.S, v)
	want := m.HTR(t.S, v)
	c.Trans(2)
	c.Validated(2)
	if got := zssz.HashTreeRoot(htr.HashFn(h.h), p.Interface(), t.D); got != want {
		c.Fail("root %x, expected %x", got, want)
	}
	if got := zssz.HashTreeRoot(&directFn{h.h}, p.Interface(), t.D); got != want {
		c.Fail("root %x with an own MerkleFn, expected %x", got, want)
	}
	if sd, ok := t.D.(types.SignedSSZ); ok && t.S.Kind == model.KCont {
		c.Trans(1)
		c.Validated(1)
		if got, want := zssz.SigningRoot(htr.HashFn(h.h), p.Interface(), sd), m.SigningRoot(t.S, v); got != want {
			c.Fail("signing root %x, expected %x", got, want)
		}
	}
}

// longUnder: long lists under every function, with definitions that live across the switches.
func longUnder(quick bool) []rt.Unit {
	return dynLong("roots of", func(c *rt.Ctx, t *typ) {
		defer restoreSHA()
		ns := []uint64{0, 1, 33, 65, 129, 257, 513, 1025, 2049}
		if !quick {
			ns = append(ns, 4096, 4097, 8193, 16385, 32769)
		}
		for _, h := range hashFns() {
			m := model.NewMerkler(h.h)
			htr.InitZeroHashes(h.h)
			for _, n := range ns {
				for k, v := range lenVals(t.S, n) {
					if k == 1 {
						v = model.Filled(t.S, v, model.FillCount)
					}
					rootUnder(c, t, h, m, v)
				}
			}
		}
		for _, h := range hashFns() {
			m := model.NewMerkler(h.h)
			htr.InitZeroHashes(h.h)
			for _, n := range []uint64{513, 1025} {
				leaves := leafSet(n, 0)
				for _, l := range []uint64{n, 4097, 1 << 40, ^uint64(0)} {
					c.Case(func() string { return fmt.Sprintf("%s: count %d limit %d", h.name, n, l) })
					c.State()
					c.Trans(2)
					c.Validated(2)
					if got, want := merkle.Merkleize(htr.HashFn(h.h), n, l, leafFn(leaves, false)), m.Merkleize(leaves, l); got != want {
						c.Fail("root %x, expected %x", got, want)
					}
					lv := treeLevels(m, leaves, model.Depth(l))
					for _, i := range []uint64{0, n / 2, n - 1, n % l, l - 1} {
						checkProof(c, h.h, m, n, l, leaves, lv, i)
					}
				}
			}
		}
	})
}
