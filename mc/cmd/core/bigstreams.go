package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/protolambda/zssz"

	"verif/mc/model"
	"verif/mc/rt"
)

// stepReader delivers at most step bytes per call, fails (or ends) after fail bytes, and may report EOF with the last bytes.
type stepReader struct {
	data  []byte
	pos   int
	step  int
	fail  int // -1: never
	end   error
	early bool // EOF together with the last bytes
	max   int
}

func (r *stepReader) Read(p []byte) (int, error) {
	left := len(r.data) - r.pos
	if r.fail >= 0 {
		left = r.fail - r.pos
	}
	if len(p) == 0 {
		return 0, nil
	}
	if left <= 0 {
		if r.fail >= 0 {
			return 0, r.end
		}
		return 0, io.EOF
	}
	n := min(len(p), left, r.step)
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.early && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

var steps = []int{1, 3, 7, 8, 32, 64, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 32768, 65535, 65536, 65537}

// picker selects the values of the big enumeration that sit near the sizes of usual buffers, plus some others.
func picker(maxLen int) func(ser []byte) bool {
	seen := map[int]int{}
	return func(ser []byte) bool {
		n := len(ser)
		if n < 60 || n > maxLen {
			return false
		}
		k := n / 97
		for _, m := range []int{128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
			if d := n - m; d >= -4 && d <= 4 {
				k = -n
			}
		}
		if k > 100 {
			k = 100 + k/50
		}
		seen[k]++
		return seen[k] == 1
	}
}

// bigStreams: large inputs cut into chunks of every size around the usual buffer sizes, and cut off at such places.
func bigStreams(quick bool) []rt.Unit {
	ok := map[*typ]func([]byte) bool{}
	maxLen := 70_000
	if !quick {
		maxLen = 600_000
	}
	return bigUnits(true, func(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
		if ok[t] == nil {
			ok = map[*typ]func([]byte) bool{t: picker(maxLen)}
		}
		if !ok[t](ser) {
			return
		}
		fz := ser
		for oi, o := range readOps {
			d, n := ser, uint64(len(ser))
			if oi == 2 {
				if uint64(len(fz)) < t.D.FuzzMinLen() {
					continue
				}
				d = fz
			}
			want, wantErr := o.run(t, plainReader{bytes.NewReader(d)}, n)
			for _, step := range steps {
				if step > len(d)*2 || step == 1 && len(d) > 20_000 {
					continue
				}
				for _, early := range []bool{false, true} {
					for _, trail := range []int{0, 5000} {
						if early && trail > 0 {
							continue
						}
						stream := append(append([]byte{}, d...), pattern(trail)...)
						r := &stepReader{data: stream, step: step, fail: -1, early: early}
						c.State()
						c.Trans(1)
						c.Validated(1)
						c.Case(func() string {
							return fmt.Sprintf("%s of %d bytes (+%d) in chunks of %d, EOF with the last: %v", o.name, len(d), trail, step, early)
						})
						got, err := o.run(t, r, n)
						if r.pos > len(d) {
							c.Fail("read beyond its %d bytes (to %d)", n, r.pos)
						}
						if (err == nil) != (wantErr == nil) || err == nil && got != want {
							c.Fail("result %v, with plain delivery %v (or a different value)", err, wantErr)
						}
						if err == nil && oi < 2 && r.pos != len(d) {
							c.Fail("consumed %d bytes instead of %d", r.pos, len(d))
						}
					}
				}
			}
			need := readLen(oi, want, wantErr, len(d))
			for _, at := range cuts(need) {
				for _, end := range []error{io.EOF, io.ErrUnexpectedEOF, errInjected, errors.New("other")} {
					for _, step := range []int{512, 4096, 1 << 30} {
						r := &stepReader{data: d, step: step, fail: at, end: end}
						c.State()
						c.Trans(1)
						c.Validated(1)
						c.Case(func() string {
							return fmt.Sprintf("%s of %d bytes, the reader ends with %v after %d (chunks of %d)", o.name, len(d), end, at, step)
						})
						if _, err := o.run(t, r, n); err == nil {
							c.Fail("success although the reader failed after %d bytes", at)
						}
					}
				}
			}
		}
	})
}

// cuts: places below n around its ends and the multiples of usual buffer sizes.
func cuts(n int) []int {
	var o []int
	seen := map[int]bool{}
	add := func(k int) {
		if k >= 0 && k < n && !seen[k] {
			seen[k] = true
			o = append(o, k)
		}
	}
	for i := 0; i < 6; i++ {
		add(i)
		add(n - 1 - i)
	}
	add(n / 2)
	for _, m := range []int{32, 64, 512, 1024, 4096, 32768, 65536} {
		for d := -1; d <= 1; d++ {
			add(m + d)
			add(n - m + d)
			add(n/m*m + d)
		}
	}
	return o
}

// bigWriters: writers that fail in large encodings.
func bigWriters(quick bool) []rt.Unit {
	ok := map[*typ]func([]byte) bool{}
	maxLen := 70_000
	if rt.Deep {
		maxLen = 600_000
	}
	return bigUnits(true, func(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
		if ok[t] == nil {
			ok = map[*typ]func([]byte) bool{t: picker(maxLen)}
		}
		if !ok[t](ser) {
			return
		}
		p := model.NewGo(t.S, v)
		for _, at := range append(cuts(len(ser)), len(ser)) {
			c.State()
			c.Trans(1)
			c.Validated(1)
			c.Case(func() string { return fmt.Sprintf("encoding of %d bytes, the writer fails after %d", len(ser), at) })
			w := &spaceWriter{left: at}
			n, err := zssz.Encode(w, p.Interface(), t.D)
			if at == len(ser) {
				if err != nil || n != len(ser) || !bytes.Equal(w.got, ser) {
					c.Fail("n=%d err=%v without a failure", n, err)
				}
				continue
			}
			if err == nil {
				c.Fail("no error although the writer failed (n=%d)", n)
			}
			if n != len(w.got) || !bytes.HasPrefix(ser, w.got) {
				c.Fail("returned %d, the writer accepted %d bytes; prefix of the encoding: %v", n, len(w.got), bytes.HasPrefix(ser, w.got))
			}
			if w.after != 0 {
				c.Fail("%d more writes after the failure", w.after)
			}
		}
	})
}

// spaceWriter accepts that many bytes, then fails.
type spaceWriter struct {
	got    []byte
	left   int
	failed bool
	after  int
}

func (w *spaceWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, errWrite
	}
	n := min(len(p), w.left)
	w.got = append(w.got, p[:n]...)
	w.left -= n
	if n < len(p) {
		w.failed = true
		return n, errWrite
	}
	return n, nil
}
