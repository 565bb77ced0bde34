package main

import (
	"bytes"
	"fmt"

	"github.com/protolambda/zssz/bitfields"

	"verif/mc/rt"
)

// bitsOf is the plain model: the bits of a byte slice in order.
func bitsOf(b []byte) []byte {
	out := make([]byte, 8*len(b))
	for i := range out {
		out[i] = b[i/8] / (1 << (i % 8)) % 2
	}
	return out
}

var c20 = &rt.Check{
	ID: "C20", Level: "model_checking",
	Rule:        "all byte slices up to the length bound over the full byte alphabet, longer ones (to 1 MB) over a reduced alphabet or with one or two bits set or clear, with all bit indices and all limits / bit lengths from 0 beyond the slice plus huge ones; all 256 single bytes for the byte helpers; state = byte slice, transition = one helper call compared with the bit-array model",
	Assumptions: []string{"out-of-range indices and, for the bit index of a zero byte, the return value are outside the property"},
	Units: func(quick bool) []rt.Unit {
		full := make([]byte, 256)
		for i := range full {
			full[i] = byte(i)
		}
		red := []byte{0, 1, 2, 3, 7, 8, 0x0f, 0x10, 0x11, 0x1f, 0x20, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xf0, 0xfe, 0xff, 0x55, 0xaa}
		red6 := []byte{0, 1, 0x80, 0xff, 0x24, 0x10}
		var us []rt.Unit
		for first := 0; first < 256; first++ {
			us = append(us, rt.Unit{Name: fmt.Sprintf("slices starting with %02x", first), Run: func(c *rt.Ctx) {
				if first == 0 {
					checkBits(c, nil)
					checkBits(c, []byte{})
				}
				b := []byte{byte(first)}
				checkBits(c, b)
				allSlices(b, 1, full, func(x []byte) { checkBits(c, x) })
				l3 := red
				if !quick {
					l3 = full
				}
				allSlices(b, 2, l3, func(x []byte) { checkBits(c, x) })
				l4 := red6
				if !quick {
					l4 = red
				}
				allSlices(b, 3, l4, func(x []byte) { checkBits(c, x) })
				allSlices(b, 4, red6[:4], func(x []byte) { checkBits(c, x) })
				for _, n := range []int{7, 8, 15, 16, 31, 32, 33, 63, 64, 65} {
					for _, mid := range red6 {
						for _, last := range full {
							x := bytes.Repeat([]byte{mid}, n)
							x[0], x[n-1] = byte(first), last
							checkBits(c, x)
							x = make([]byte, n)
							x[n/2], x[n-1] = byte(first), last
							checkBits(c, x)
							if n > 8 && quick {
								break
							}
						}
					}
				}
			}})
		}
		lens := []int{}
		for n := 4; n <= 80; n++ {
			lens = append(lens, n)
		}
		for _, n := range []int{96, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 65536, 65537, 1 << 20} {
			lens = append(lens, n)
		}
		for _, n := range lens {
			us = append(us, rt.Unit{Name: fmt.Sprintf("%d bytes, one or two bits set or clear", n), Run: func(c *rt.Ctx) {
				var at []int // bit positions
				if n <= 80 || n <= 300 && !quick {
					for i := 0; i < 8*n; i++ {
						at = append(at, i)
					}
				} else {
					for k := uint(0); 1<<k < 8*n; k++ {
						for d := -1; d <= 1; d++ {
							for _, i := range []int{1<<k + d, 8*n - 1<<k + d} {
								if i >= 0 && i < 8*n && len(at) < 4_000_000/n {
									at = append(at, i)
								}
							}
						}
					}
				}
				deep = n <= 80
				defer func() { deep = false }()
				for _, fill := range []byte{0, 0xff} {
					x := bytes.Repeat([]byte{fill}, n)
					checkBits(c, x)
					for _, i := range at {
						x[i/8] ^= 1 << (i % 8)
						checkBits(c, x)
						deep = false
						for _, j := range []int{8*n - 1, 8*n - 8, 8*n - 7, 8*n - 9, 0} {
							if j != i && (n < 5000 || j == 8*n-1) {
								x[j/8] ^= 1 << (j % 8)
								checkBits(c, x)
								x[j/8] ^= 1 << (j % 8)
							}
						}
						deep = n <= 80 && i%7 == 0
						x[i/8] ^= 1 << (i % 8)
					}
				}
			}})
		}
		us = append(us, rt.Unit{Name: "byte helpers", Run: func(c *rt.Ctx) {
			for v := 0; v < 256; v++ {
				if v > 0 {
					hi := 0
					for i := 0; i < 8; i++ {
						if v>>i&1 == 1 {
							hi = i
						}
					}
					c.Case(func() string { return fmt.Sprintf("BitIndex(%02x)", v) })
					c.State()
					c.Trans(1)
					c.Validated(1)
					if got := bitfields.BitIndex(byte(v)); got != uint64(hi) {
						c.Fail("%d, expected %d", got, hi)
					}
				}
			}
		}})
		return withGiants(us, "bits", giantBits)
	},
}

func allSlices(prefix []byte, n int, alpha []byte, f func([]byte)) {
	x := append(append([]byte{}, prefix...), make([]byte, n)...)
	var rec func(i int)
	rec = func(i int) {
		if i == len(x) {
			f(x)
			return
		}
		for _, a := range alpha {
			x[i] = a
			rec(i + 1)
		}
	}
	rec(len(prefix))
}

// deep: all bit indices, whatever the length.
var deep bool

func checkBits(c *rt.Ctx, b []byte) {
	c.State()
	c.Case(func() string { return fmt.Sprintf("bytes %x", b) })
	nb := uint64(len(b))
	// bit model
	hi := -1 // highest set bit
	count := 0
	for i := len(b) - 1; i >= 0 && hi < 0; i-- {
		for k := 7; k >= 0; k-- {
			if b[i]>>k&1 == 1 {
				hi = 8*i + k
				break
			}
		}
	}
	for _, x := range b {
		for ; x != 0; x >>= 1 {
			count += int(x & 1)
		}
	}
	wellFormed := len(b) > 0 && b[len(b)-1] != 0
	// bitlist length: position of the delimiting bit
	if wellFormed {
		if got := bitfields.BitlistLen(b); got != uint64(hi) {
			c.Fail("BitlistLen is %d, the delimiting bit is at %d", got, hi)
		}
	} else if len(b) == 0 {
		if got := bitfields.BitlistLen(b); got != 0 {
			c.Fail("BitlistLen is %d for no bytes", got)
		}
	}
	// all zero except the delimiter
	var zero bool
	if wellFormed {
		zero = count == 1
	} else {
		zero = count == 0
	}
	if got := bitfields.IsZeroBitlist(b); got != zero {
		c.Fail("IsZeroBitlist is %v, expected %v", got, zero)
	}
	c.Trans(2)
	c.Validated(2)
	// validity for all limits
	n := nb * 8
	chkLimit := func(limit uint64) {
		want := wellFormed && uint64(hi) <= limit
		if got := bitfields.BitlistCheck(b, limit); (got == nil) != want {
			c.Fail("BitlistCheck for limit %d says %v, valid: %v", limit, got, want)
		}
		wantV := nb == limit/8+(limit%8+7)/8 && (hi < 0 || uint64(hi) < limit)
		if got := bitfields.BitvectorCheck(b, limit); (got == nil) != wantV {
			c.Fail("BitvectorCheck for length %d says %v, valid: %v", limit, got, wantV)
		}
		c.Trans(2)
		c.Validated(2)
	}
	from := uint64(0)
	if nb > 5 {
		from = n - 20
	}
	for l := from; l <= n+10; l++ {
		chkLimit(l)
	}
	for _, l := range []uint64{0, 1, 1 << 31, 1 << 32, 1<<32 + n, 1 << 61, 1<<63 - 1, 1 << 63, ^uint64(0) - 8, ^uint64(0) - 7, ^uint64(0) - 6, ^uint64(0)} {
		chkLimit(l)
	}
	if nb > 0 {
		want := wellFormed
		if got := bitfields.BitlistCheck(b, ^uint64(0)); (got == nil) != want {
			c.Fail("BitlistCheck for limit 2^64-1 says %v, valid: %v", got, want)
		}
	}
	// get and set
	idx := func(f func(i uint64)) {
		if n <= 24 || deep {
			for i := uint64(0); i < n; i++ {
				f(i)
			}
			return
		}
		for i := uint64(0); i < 10; i++ {
			f(i)
			f(n - 1 - i)
		}
		f(n / 2)
		if n > 700 {
			for k := uint(9); 1<<k < n; k++ {
				f(1<<k - 1)
				f(1 << k)
			}
		}
	}
	if nb == 0 {
		return
	}
	var tmp [80]byte
	x := tmp[:]
	if nb > 80 {
		x = make([]byte, nb)
	}
	x = x[:nb]
	idx(func(i uint64) {
		want := b[i/8]/(1<<(i%8))%2 == 1
		if got := bitfields.GetBit(b, i); got != want {
			c.Fail("GetBit(%d) is %v", i, got)
		}
		for _, v := range []bool{false, true} {
			copy(x, b)
			bitfields.SetBit(x, i, v)
			if nb > 300 { // compare in one go
				e := b[i/8] &^ (1 << (i % 8))
				if v {
					e |= 1 << (i % 8)
				}
				if x[i/8] != e {
					c.Fail("SetBit(%d, %v) gives byte %x", i, v, x[i/8])
				}
				x[i/8] = b[i/8]
				if !bytes.Equal(x, b) {
					c.Fail("SetBit(%d, %v) changes another byte", i, v)
				}
				continue
			}
			for k := range x {
				e := b[k]
				if uint64(k) == i/8 {
					if v {
						e |= 1 << (i % 8)
					} else {
						e &= ^byte(1 << (i % 8))
					}
				}
				if x[k] != e {
					c.Fail("SetBit(%d, %v) gives %x", i, v, x)
				}
			}
		}
		c.Trans(3)
		c.Validated(3)
	})
}
