//go:build amd64 || arm64

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"reflect"
	"runtime/debug"
	"sort"
	"syscall"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// Values of 2 to 8 GiB: all zero but for a few marked bytes, in memory that is mapped but (being zero) never backed.

type mapping []byte

func mapZero(n uint64) mapping {
	m, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	return m
}

func (m mapping) free() { syscall.Munmap(m) }

type marks map[uint64]byte

// put marks bytes around the places where sizes outgrow a number type.
func (k marks) put(m []byte, base uint64, vals int) {
	for _, p := range []uint64{0, 1, 31, 32, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 33, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 40, 1 << 33, uint64(len(m)) / 2, uint64(len(m)) - 1} {
		if p < uint64(len(m)) {
			b := byte(1)
			if vals > 1 {
				b = byte(p%uint64(vals-1)) + 1
			}
			m[p] = b
			k[base+p] = b
		}
	}
}

func (k marks) le32(at uint64, v uint64) {
	for i := uint64(0); i < 4; i++ {
		if b := byte(v >> (8 * i)); b != 0 {
			k[at+i] = b
		} else {
			delete(k, at+i)
		}
	}
}

// matcher checks that it is given exactly the marked zeros.
type matcher struct {
	pos uint64
	ps  []uint64
	k   marks
	err string
	c   *rt.Ctx
}

func newMatcher(c *rt.Ctx, k marks) *matcher {
	m := &matcher{k: k, c: c}
	for p := range k {
		m.ps = append(m.ps, p)
	}
	sort.Slice(m.ps, func(i, j int) bool { return m.ps[i] < m.ps[j] })
	return m
}

var zeroBlock = make([]byte, 1<<20)

func (m *matcher) Write(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		l := uint64(len(p))
		if len(m.ps) > 0 && m.ps[0] == m.pos {
			if p[0] != m.k[m.pos] && m.err == "" {
				m.err = fmt.Sprintf("byte %d is %#x instead of %#x", m.pos, p[0], m.k[m.pos])
			}
			m.ps = m.ps[1:]
			m.pos, p = m.pos+1, p[1:]
			continue
		}
		if len(m.ps) > 0 && m.ps[0]-m.pos < l {
			l = m.ps[0] - m.pos
		}
		if l > uint64(len(zeroBlock)) {
			l = uint64(len(zeroBlock))
		}
		if !bytes.Equal(p[:l], zeroBlock[:l]) && m.err == "" {
			m.err = fmt.Sprintf("a byte from %d up to %d is not zero", m.pos, m.pos+l)
		}
		m.pos, p = m.pos+l, p[l:]
		if m.c != nil {
			m.c.Tick()
		}
	}
	return n, nil
}

func (m *matcher) verdict(total uint64) string {
	if m.err != "" {
		return m.err
	}
	if m.pos != total {
		return fmt.Sprintf("%d bytes instead of %d", m.pos, total)
	}
	return ""
}

// markReader delivers marked zeros.
type markReader struct {
	pos, total uint64
	m          *matcher
}

func (r *markReader) Read(p []byte) (int, error) {
	if r.pos >= r.total {
		return 0, io.EOF
	}
	n := min(uint64(len(p)), r.total-r.pos)
	clear(p[:n])
	for _, at := range r.m.ps {
		if at >= r.pos && at < r.pos+n {
			p[at-r.pos] = r.m.k[at]
		}
	}
	r.pos += n
	r.m.c.Tick()
	return int(n), nil
}

type (
	gBytes []byte
	gU16   []uint16
	gU32   []uint32
	gU64   []uint64
	gBool  []bool
	gBits  []byte
	gVec   [1<<20 + 3]byte
	gVecs  []gVec
	gOne   []universe.S1[uint8]
	gList  []gBytes
	gPair  struct {
		A uint8
		B gBytes
		C gBytes
		D uint16
	}
	gArr [3]gBytes
)

// limits where sizes and counts outgrow 32 bits
type (
	gB32       []byte
	gB32m      []byte
	gO32       []bool
	gO32m      []bool
	gU29       []uint64
	gU29m      []uint64
	gBit       []byte
	gBitm      []byte
	gOne24     []universe.S1[uint8]
	gO24m      []universe.S1[uint8]
	gIn[T any] struct {
		A uint8
		B T
	}
)

func (*gB32) Limit() uint64   { return 1 << 32 }
func (*gB32m) Limit() uint64  { return 1<<32 - 1 }
func (*gO32) Limit() uint64   { return 1 << 32 }
func (*gO32m) Limit() uint64  { return 1<<32 - 1 }
func (*gU29) Limit() uint64   { return 1 << 29 }
func (*gU29m) Limit() uint64  { return 1<<29 - 1 }
func (*gBit) Limit() uint64   { return 1<<32 + 4 }
func (*gBit) BitLen() uint64  { return 0 }
func (*gBitm) Limit() uint64  { return 1<<32 + 3 }
func (*gBitm) BitLen() uint64 { return 0 }

const gLim = 1 << 40

func (*gBytes) Limit() uint64 { return gLim }
func (*gU16) Limit() uint64   { return gLim }
func (*gU32) Limit() uint64   { return gLim }
func (*gU64) Limit() uint64   { return gLim }
func (*gBool) Limit() uint64  { return gLim }
func (*gBits) Limit() uint64  { return gLim }
func (*gBits) BitLen() uint64 { return 0 }
func (*gVecs) Limit() uint64  { return gLim }
func (*gOne) Limit() uint64   { return gLim }
func (*gList) Limit() uint64  { return gLim }

type giant struct {
	name  string
	p     interface{}
	total uint64
	k     marks
	root  func(h htr.HashFn) [32]byte
}

func def(p interface{}) types.SSZ {
	d, err := types.SSZFactory(reflect.TypeOf(p).Elem())
	if err != nil {
		return nil
	}
	return d
}

// sparseRoot is the root of the tree of the given leaves, all others zero.
func sparseRoot(h htr.HashFn, leaves map[uint64][32]byte, depth int) [32]byte {
	z := [32]byte{}
	comb := func(a, b [32]byte) [32]byte { return h(append(a[:], b[:]...)) }
	for j := 0; j < depth; j++ {
		up := map[uint64][32]byte{}
		at := func(i uint64) [32]byte {
			if x, ok := leaves[i]; ok {
				return x
			}
			return z
		}
		for i := range leaves {
			up[i>>1] = comb(at(i&^1), at(i|1))
		}
		leaves, z = up, comb(z, z)
	}
	if x, ok := leaves[0]; ok {
		return x
	}
	return z
}

func mixIn(h htr.HashFn, r [32]byte, n uint64) [32]byte {
	var b [64]byte
	copy(b[:], r[:])
	binary.LittleEndian.PutUint64(b[32:], n)
	return h(b[:])
}

func chunks(k marks) map[uint64][32]byte {
	o := map[uint64][32]byte{}
	for p, b := range k {
		x := o[p/32]
		x[p%32] = b
		o[p/32] = x
	}
	return o
}

func as[T any](m []byte, n uint64) []T {
	return unsafe.Slice((*T)(unsafe.Pointer(unsafe.SliceData(m))), n)
}

// giants calls f with one value after another.
func giants(roots bool, f func(g *giant)) bool {
	flat := func(name string, n uint64, vals int, mk func(m []byte) interface{}, es uint64) bool {
		m := mapZero(n)
		if m == nil {
			return false
		}
		defer m.free()
		k := marks{}
		k.put(m, 0, vals)
		g := &giant{name: fmt.Sprintf("%s of %d bytes", name, n), p: mk(m), total: n, k: k}
		g.root = func(h htr.HashFn) [32]byte {
			return mixIn(h, sparseRoot(h, chunks(k), model.Depth(gLim*es/32)), n/es)
		}
		f(g)
		return true
	}
	ok := true
	ns := []uint64{1<<31 - 8, 1<<31 + 8, 1<<32 - 8, 1 << 32, 1<<32 + 40}
	if roots {
		ns = []uint64{1<<32 + 40}
	}
	for _, n := range ns {
		ok = ok && flat("bytes", n+5, 256, func(m []byte) interface{} { x := gBytes(m); return &x }, 1)
		ok = ok && flat("list of uint64", n, 256, func(m []byte) interface{} { x := gU64(as[uint64](m, n/8)); return &x }, 8)
		if roots {
			break
		}
		ok = ok && flat("list of uint16", n+2, 256, func(m []byte) interface{} { x := gU16(as[uint16](m, n/2+1)); return &x }, 2)
		ok = ok && flat("list of uint32", n+4, 256, func(m []byte) interface{} { x := gU32(as[uint32](m, n/4+1)); return &x }, 4)
		ok = ok && flat("list of bool", n+3, 1, func(m []byte) interface{} { x := gBool(as[bool](m, n+3)); return &x }, 1)
	}
	// bitlists: 2^32 bits and more
	for _, n := range []uint64{1<<29 - 1, 1 << 29, 1<<29 + 1, 1<<29 + 33} {
		m := mapZero(n)
		if m == nil {
			return false
		}
		k := marks{}
		k.put(m, 0, 256)
		m[n-1], k[n-1] = 0x16, 0x16
		x := gBits(m)
		g := &giant{name: fmt.Sprintf("bitlist of %d bytes", n), p: &x, total: n, k: k}
		g.root = func(h htr.HashFn) [32]byte {
			kk := marks{}
			for p, b := range k {
				kk[p] = b
			}
			kk[n-1] = 0x06
			return mixIn(h, sparseRoot(h, chunks(kk), 32), (n-1)*8+4)
		}
		f(g)
		m.free()
	}
	// a list of long vectors
	{
		n := uint64(4097)
		sz := uint64(len(gVec{}))
		m := mapZero(n * sz)
		if m == nil {
			return false
		}
		k := marks{}
		k.put(m, 0, 256)
		x := gVecs(as[gVec](m, n))
		g := &giant{name: "list of 4097 vectors of a million bytes", p: &x, total: n * sz, k: k}
		g.root = func(h htr.HashFn) [32]byte {
			per := map[uint64]marks{}
			for p, b := range k {
				e := per[p/sz]
				if e == nil {
					e = marks{}
					per[p/sz] = e
				}
				e[p%sz] = b
			}
			leaves := map[uint64][32]byte{}
			d := model.Depth((sz + 31) / 32)
			zero := sparseRoot(h, nil, d)
			for i := uint64(0); i < n; i++ {
				if e := per[i]; e != nil {
					leaves[i] = sparseRoot(h, chunks(e), d)
				} else {
					leaves[i] = zero
				}
			}
			return mixIn(h, sparseRoot(h, leaves, 40), n)
		}
		f(g)
		m.free()
	}
	if roots { // many composite elements
		n := uint64(1<<24 + 3)
		m := mapZero(n)
		if m == nil {
			return false
		}
		k := marks{}
		k.put(m, 0, 256)
		x := gOne(as[universe.S1[uint8]](m, n))
		g := &giant{name: "list of 2^24+3 containers", p: &x, total: n, k: k}
		g.root = func(h htr.HashFn) [32]byte {
			leaves := map[uint64][32]byte{}
			for p, b := range k {
				leaves[p] = [32]byte{b}
			}
			return mixIn(h, sparseRoot(h, leaves, 40), n)
		}
		f(g)
		m.free()
		return ok
	}
	// offsets up to 2^32-1
	m := mapZero(1<<32 + 1<<20)
	if m == nil {
		return false
	}
	defer m.free()
	bs := func(n uint64) gBytes { return gBytes(m[:n]) }
	// series of variable-size elements behind a head
	series := func(head uint64, at []uint64, lens []uint64) (uint64, marks) {
		k := marks{}
		off := head
		for i, n := range lens {
			k.le32(at[i], off)
			off += n
		}
		return off, k
	}
	for _, a := range []uint64{1<<31 - 20, 1<<31 - 10, 1<<31 + 5, 1<<32 - 40, 1<<32 - 12, 1<<32 - 11} {
		for _, b := range []uint64{0, 1, 1 << 20} {
			x := gPair{A: 5, B: bs(a), C: bs(b), D: 0x0706}
			tot, k := series(11, []uint64{1, 5}, []uint64{a, b})
			k[0], k[9], k[10] = 5, 6, 7
			if 11+a <= 1<<32-1 {
				f(&giant{name: fmt.Sprintf("container with fields of %d and %d bytes", a, b), p: &x, total: tot, k: k})
			}
		}
	}
	for _, ls := range [][]uint64{{1 << 31, 1<<31 - 20, 3}, {1<<31 - 1, 1, 1 << 31}, {1<<32 - 13, 0, 9}, {0, 1<<32 - 13, 1 << 20}, {5, 1<<31 - 17, 1<<31 - 1}} {
		tot, k := series(12, []uint64{0, 4, 8}, ls)
		l := gList{bs(ls[0]), bs(ls[1]), bs(ls[2])}
		f(&giant{name: fmt.Sprintf("list with elements of %d bytes", ls), p: &l, total: tot, k: k})
		a := gArr{bs(ls[0]), bs(ls[1]), bs(ls[2])}
		f(&giant{name: fmt.Sprintf("vector with elements of %d bytes", ls), p: &a, total: tot, k: k})
	}
	return ok
}

func skipGiants(c *rt.Ctx) { c.Count("giant values not possible here", 1) }

func init() {
	giantEncode = func(c *rt.Ctx) {
		if !giants(false, func(g *giant) {
			d := def(g.p)
			c.State()
			c.Case(func() string { return g.name })
			w := newMatcher(c, g.k)
			n, err := zssz.Encode(w, g.p, d)
			c.Trans(2)
			c.Validated(2)
			if err != nil {
				c.Fail("Encode failed: %v", err)
			}
			if e := w.verdict(g.total); e != "" {
				c.Fail("Encode wrote %s", e)
			}
			if uint64(n) != g.total {
				c.Fail("Encode returned %d, wrote %d bytes", n, g.total)
			}
			if sz := zssz.SizeOf(g.p, d); sz != g.total {
				c.Fail("SizeOf is %d, encoding has %d bytes", sz, g.total)
			}
		}) {
			skipGiants(c)
		}
	}
	giantRoots = func(c *rt.Ctx) {
		defer restoreSHA()
		calls := 0
		h := htr.HashFn(func(in []byte) [32]byte {
			if calls++; calls&(1<<20-1) == 0 {
				c.Tick()
			}
			return cheapHash(in)
		})
		htr.InitZeroHashes(h)
		if !giants(true, func(g *giant) {
			c.State()
			c.Case(func() string { return g.name })
			c.Trans(1)
			c.Validated(1)
			want := g.root(h)
			if got := zssz.HashTreeRoot(h, g.p, def(g.p)); got != want {
				c.Fail("root %x, SSZ says %x", got, want)
			}
		}) {
			skipGiants(c)
		}
	}
	giantDecode = func(c *rt.Ctx) {
		one := func(name string, n uint64, k marks, p interface{}, mem func() []byte) {
			c.State()
			c.Case(func() string { return fmt.Sprintf("%s of %d bytes", name, n) })
			c.Trans(1)
			c.Validated(1)
			if err := zssz.Decode(&markReader{total: n, m: newMatcher(c, k)}, n, p, def(p)); err != nil {
				c.Fail("Decode failed: %v", err)
			}
			w := newMatcher(c, k)
			w.Write(mem())
			c.Tick()
			if e := w.verdict(n); e != "" {
				c.Fail("decoded value: %s", e)
			}
			reflect.ValueOf(p).Elem().SetZero()
			debug.FreeOSMemory()
			c.Tick()
		}
		k := marks{0: 3, 1<<31 - 1: 9, 1 << 31: 4, 1<<32 - 1: 5, 1 << 32: 6, 1<<32 + 7: 7}
		var b gBytes
		one("bytes", 1<<32+8, k, &b, func() []byte { return b })
		var u gU64
		one("list of uint64", 1<<32+8, k, &u, func() []byte { return unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(u))), len(u)*8) })
	}
	// encodings of a length around the limit: p's is to be accepted, q's refused
	around := func(c *rt.Ctx, f func(name string, n uint64, k marks, p interface{}, ok bool)) {
		k := marks{1<<31 - 1: 1, 1 << 31: 1, 1<<32 - 1: 1}
		f("bytes, limit 2^32,", 1<<32, k, new(gB32), true)
		f("bytes, limit 2^32,", 1<<32+1, k, new(gB32), false)
		f("bytes, limit 2^32-1,", 1<<32, k, new(gB32m), false)
		f("list of bool, limit 2^32,", 1<<32, k, new(gO32), true)
		f("list of bool, limit 2^32,", 1<<32+1, k, new(gO32), false)
		f("list of bool, limit 2^32-1,", 1<<32, k, new(gO32m), false)
		f("list of bool with a byte that is 2", 1<<32, marks{1<<32 - 2: 2}, new(gO32), false)
		f("list of uint64, limit 2^29,", 1<<32, k, new(gU29), true)
		f("list of uint64, limit 2^29,", 1<<32+8, k, new(gU29), false)
		f("list of uint64, limit 2^29,", 1<<32-4, k, new(gU29), false)
		f("list of uint64, limit 2^29-1,", 1<<32, k, new(gU29m), false)
		b := marks{0: 1, 1 << 29: 0x16}
		f("bitlist, limit 2^32+4,", 1<<29+1, b, new(gBit), true)
		f("bitlist, limit 2^32+3,", 1<<29+1, b, new(gBitm), false)
		f("bitlist, limit 2^32+4,", 1<<29+1, marks{1 << 29: 0x26}, new(gBit), false)
		f("bitlist without a delimiter", 1<<29+1, marks{0: 1}, new(gBit), false)
		// behind an offset
		in := func(k marks) marks {
			o := marks{1: 5}
			for p, b := range k {
				o[p+5] = b
			}
			return o
		}
		f("container of a uint8 and a bitlist, limit 2^32+4,", 1<<29+6, in(b), new(gIn[gBit]), true)
		f("container of a uint8 and a bitlist, limit 2^32+3,", 1<<29+6, in(b), new(gIn[gBitm]), false)
		f("container of a uint8 and bytes, limit 2^32,", 1<<32+5, in(k), new(gIn[gB32]), true)
		f("container of a uint8 and bytes, limit 2^32-1,", 1<<32+5, in(k), new(gIn[gB32m]), false)
		// offsets that have to be told apart in full
		f("list of bytes with two offsets that are equal but for 2^31", 1<<31+16, marks{0: 8, 4: 8, 7: 0x80}, new(gList), true)
		f("list of bytes with an offset beyond the end by 2^31", 1<<30+16, marks{0: 8, 4: 8, 7: 0x80}, new(gList), false)
		f("list of bytes with offsets that go back by 2^31", 1<<31+16, marks{0: 12, 4: 12, 7: 0x80, 8: 12}, new(gList), false)
		f("list of bytes with 2^26 offsets", 1<<28+1<<31, marks{3: 0x10}, new(gList), false)
	}
	giantStrict = func(c *rt.Ctx) {
		around(c, func(name string, n uint64, k marks, p interface{}, ok bool) {
			c.State()
			c.Case(func() string { return fmt.Sprintf("Decode of %s of %d bytes", name, n) })
			c.Trans(1)
			c.Validated(1)
			err := zssz.Decode(&markReader{total: n, m: newMatcher(c, k)}, n, p, def(p))
			reflect.ValueOf(p).Elem().SetZero()
			c.Tick()
			debug.FreeOSMemory()
			if (err == nil) != ok {
				c.Fail("Decode: %v, but %v is right", err, ok)
			}
		})
	}
	giantDry = func(c *rt.Ctx) {
		around(c, func(name string, n uint64, k marks, p interface{}, ok bool) {
			if _, slow := p.(*gO32); slow {
				return // a Read call per byte
			}
			c.State()
			c.Case(func() string { return fmt.Sprintf("DryCheck of %s of %d bytes", name, n) })
			c.Trans(1)
			c.Validated(1)
			if err := zssz.DryCheck(&markReader{total: n, m: newMatcher(c, k)}, n, def(p)); (err == nil) != ok {
				c.Fail("DryCheck: %v, but %v is right", err, ok)
			}
		})
	}
	giantBits = func(c *rt.Ctx) {
		one := func(what string, got, want interface{}) {
			c.Trans(1)
			c.Validated(1)
			if got != want {
				c.Fail("%s is %v, should be %v", what, got, want)
			}
		}
		for _, n := range []uint64{1 << 28, 1<<28 + 1, 1 << 29, 1<<29 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 9} {
			b := mapZero(n)
			if b == nil {
				skipGiants(c)
				continue
			}
			for _, last := range []byte{0, 1, 0x13, 0x80, 0xff} {
				b[n-1] = last
				c.State()
				c.Case(func() string { return fmt.Sprintf("%d bytes, all zero but the last, %x", n, last) })
				hi := uint64(bits.Len8(last)) - 1 + 8*(n-1)
				for _, l := range []uint64{0, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 7, hi - 1<<32, hi - 1, hi, hi + 1, 8*n - 8, 8*n - 7, 8*n - 1, 8 * n, 8*n + 1, 8*n + 1<<32, 8*n - 1<<32, 1<<63 - 1, 1<<64 - 1} {
					one(fmt.Sprintf("BitlistCheck for limit %d", l), bitfields.BitlistCheck(b, l) == nil, last != 0 && hi <= l)
					one(fmt.Sprintf("BitvectorCheck for length %d", l), bitfields.BitvectorCheck(b, l) == nil, n == l/8+(l%8+7)/8 && (last == 0 || hi < l))
				}
				if last != 0 {
					one("BitlistLen", bitfields.BitlistLen(b), hi)
				}
			}
			b[n-1] = 4
			for _, i := range []uint64{0, 9, 1<<31 - 1, 1 << 31, 1<<31 + 8, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 8, 1<<33 + 3, 1 << 34, 1<<35 - 1, 1 << 35, 1<<35 + 5, 8*n - 9, 8*n - 17} {
				if i/8 >= n-1 {
					continue
				}
				c.State()
				c.Case(func() string { return fmt.Sprintf("%d bytes, bit %d", n, i) })
				one("GetBit", bitfields.GetBit(b, i), false)
				bitfields.SetBit(b, i, true)
				one("the byte with the bit set", b[i/8], byte(1)<<(i%8))
				one("GetBit of the set bit", bitfields.GetBit(b, i), true)
				for _, k := range []uint64{i % (1 << 31), i % (1 << 32), i + 1, i ^ 8, 8*n - 1} {
					if k != i {
						one(fmt.Sprintf("GetBit(%d)", k), bitfields.GetBit(b, k), false)
					}
				}
				if n <= 1<<31+1 && i > 8*n-20 || i < 1<<31 && i > 9 {
					one("IsZeroBitlist", bitfields.IsZeroBitlist(b), false)
				}
				bitfields.SetBit(b, i, false)
				one("the cleared byte", b[i/8], byte(0))
				c.Tick()
			}
			if n <= 1<<31+1 {
				one("IsZeroBitlist", bitfields.IsZeroBitlist(b), true)
			}
			c.Tick()
			b.free()
		}
	}
}
