package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/htr"

	"verif/mc/rt"
)

// The primitives custom definitions are written with: the scoped decoding reader, the counting encoding writer and the
// hash helpers.

// pieceReader serves a stream in pieces and counts what was taken.
type pieceReader struct {
	data []byte
	pos  int
	mode int // 0 whole reads, 1 one byte at a time, 2 EOF with the last data, 3 an empty read before each byte, 4 fails at the end
	flip bool
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := io.EOF
	if r.mode == 4 {
		end = errInjected
	}
	if r.pos == len(r.data) {
		return 0, end
	}
	if r.mode == 3 {
		if r.flip = !r.flip; r.flip {
			return 0, nil
		}
	}
	n := min(len(p), len(r.data)-r.pos)
	if r.mode == 1 || r.mode == 3 {
		n = 1
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.mode == 2 && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// seekingReader also has Seek.
type seekingReader struct{ *pieceReader }

func (r seekingReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = int(min(off, int64(len(r.data))))
	return off, nil
}

type readerOp struct {
	name string
	kind byte   // r read, s skip, c scope, p pop
	n    uint64 // bytes
	num  int    // typed read: 1, 2, 4, 8; 5 offset
}

var readerOps = []readerOp{
	{"Read(0)", 'r', 0, 0}, {"Read(1)", 'r', 1, 0}, {"Read(3)", 'r', 3, 0}, {"Read(7)", 'r', 7, 0},
	{"ReadByte", 'r', 1, 1}, {"ReadUint16", 'r', 2, 2}, {"ReadUint32", 'r', 4, 4}, {"ReadUint64", 'r', 8, 8}, {"ReadOffset", 'r', 4, 5},
	{"Skip(0)", 's', 0, 0}, {"Skip(2)", 's', 2, 0}, {"Skip(3)", 's', 3, 0}, {"Skip(2^63)", 's', 1 << 63, 0}, {"Skip(2^64-1)", 's', ^uint64(0), 0},
	{"Scope(0)", 'c', 0, 0}, {"Scope(1)", 'c', 1, 0}, {"Scope(3)", 'c', 3, 0}, {"Scope(8)", 'c', 8, 0}, {"Scope(2^63)", 'c', 1 << 63, 0}, {"Scope(2^64-1)", 'c', ^uint64(0), 0},
	{"end of scope", 'p', 0, 0},
}

// bulkReaderOps: the same with amounts beyond the sizes of usual buffers.
var bulkReaderOps = []readerOp{
	{"Read(255)", 'r', 255, 0}, {"Read(512)", 'r', 512, 0}, {"Read(4096)", 'r', 4096, 0}, {"Read(4097)", 'r', 4097, 0}, {"Read(70000)", 'r', 70000, 0},
	{"ReadByte", 'r', 1, 1}, {"ReadUint64", 'r', 8, 8}, {"ReadOffset", 'r', 4, 5},
	{"Skip(100)", 's', 100, 0}, {"Skip(513)", 's', 513, 0}, {"Skip(4097)", 's', 4097, 0}, {"Skip(32769)", 's', 32769, 0}, {"Skip(65536)", 's', 65536, 0}, {"Skip(1000003)", 's', 1000003, 0},
	{"Scope(300)", 'c', 300, 0}, {"Scope(5000)", 'c', 5000, 0}, {"Scope(80000)", 'c', 80000, 0}, {"end of scope", 'p', 0, 0},
}

var bulkWriterOps = func() []writerOp {
	ops := []writerOp{{"WriteByte", -1, 0, 0}, {"WriteOffset(65530, 10)", -2, 65530, 10}}
	for _, n := range []int{63, 64, 65, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 8193, 32768, 65535, 65536, 70000, 1 << 20} {
		ops = append(ops, writerOp{fmt.Sprintf("Write(%d)", n), n, 0, 0})
	}
	return ops
}()

type mscope struct{ i, max uint64 }

// readerRun executes a sequence; false when it cannot be extended (an operation failed, or is not applicable).
func readerRun(c *rt.Ctx, readerOps []readerOp, seq []int, data []byte, mode int, seek bool) bool {
	src := &pieceReader{data: data, mode: mode}
	var in io.Reader = src
	if seek {
		in = seekingReader{src}
	}
	stack := []*dec.DecodingReader{dec.NewDecodingReader(in)}
	model := []mscope{{0, ^uint64(0)}}
	pos := uint64(0) // of the stream
	check := func(what string) {
		for k, dr := range stack {
			m := model[k]
			if dr.Index() != m.i || dr.Max() != m.max || dr.GetBytesSpan() != m.max-m.i {
				c.Fail("after %s: reader %d is at %d of %d with %d left, should be at %d of %d", what, k, dr.Index(), dr.Max(), dr.GetBytesSpan(), m.i, m.max)
			}
		}
		if uint64(src.pos) != pos {
			c.Fail("after %s: %d bytes were taken from the stream, should be %d", what, src.pos, pos)
		}
	}
	for at, oi := range seq {
		o := &readerOps[oi]
		last := at == len(seq)-1
		top := len(stack) - 1
		dr, m := stack[top], &model[top]
		span := m.max - m.i
		left := uint64(len(data)) - pos
		limit := pos + min(left, span) // nothing past this may ever be taken
		c.Trans(1)
		switch o.kind {
		case 'p':
			if top == 0 {
				return false
			}
			stack[top-1].UpdateIndexFromScoped(dr)
			model[top-1].i += m.i
			stack, model = stack[:top], model[:top]
		case 'c':
			if top == 3 {
				return false
			}
			sub, err := dr.Scope(o.n)
			if (err == nil) != (o.n <= span) {
				c.Fail("%s says %v with %d left", o.name, err, span)
			}
			if err != nil {
				break // nothing happened
			}
			if o.n >= 1<<63 {
				return false // no stream has so many bytes; reading from such a scope is open
			}
			stack = append(stack, sub)
			model = append(model, mscope{0, o.n})
		default:
			ok := o.n <= span && o.n <= left
			if o.kind == 's' && seek && top == 0 && !ok && o.n <= span {
				return false // seeking past the end of a file is not an error
			}
			var err error
			var want []byte
			if ok {
				want = data[pos : pos+o.n]
			}
			switch {
			case o.kind == 's':
				_, err = dr.Skip(o.n)
			case o.num == 0:
				buf := bytes.Repeat([]byte{0xcc}, int(o.n)+4)
				_, err = dr.Read(buf[:o.n:o.n])
				if ok && !bytes.Equal(buf[:o.n], want) {
					c.Fail("%s delivered %x, the stream has %x", o.name, buf[:o.n], want)
				}
				if !bytes.Equal(buf[o.n:], []byte{0xcc, 0xcc, 0xcc, 0xcc}) {
					c.Fail("%s wrote beyond its buffer", o.name)
				}
			default:
				var got uint64
				var b8 [8]byte
				copy(b8[:], want)
				switch o.num {
				case 1:
					var v byte
					v, err = dr.ReadByte()
					got = uint64(v)
				case 2:
					var v uint16
					v, err = dr.ReadUint16()
					got = uint64(v)
				case 4:
					var v uint32
					v, err = dr.ReadUint32()
					got = uint64(v)
				case 5:
					got, err = dr.ReadOffset()
				case 8:
					got, err = dr.ReadUint64()
				}
				if w := binary.LittleEndian.Uint64(b8[:]); ok && got != w {
					c.Fail("%s delivered %x, the stream has %x", o.name, got, w)
				}
			}
			if (err == nil) != ok {
				c.Fail("%s says %v with %d left in the scope and %d in the stream", o.name, err, span, left)
			}
			if !ok {
				if uint64(src.pos) > limit {
					c.Fail("failing %s took the stream to %d, beyond the scope's end at %d", o.name, src.pos, limit)
				}
				if o.n <= span {
					// the stream ended: what the index counts then is open
					if last {
						c.Validated(1)
					}
					return false
				}
				// refused by the scope, which can be used on: the index counts what was taken of it, if anything
				taken := uint64(src.pos) - pos
				m.i += taken
				pos += taken
				break
			}
			m.i += o.n
			pos += o.n
		}
		if last {
			check(o.name)
			c.Validated(1)
		}
	}
	return true
}

type writerOp struct {
	name      string
	n         int // Write of n bytes; -1 byte; -2 offset
	prev, len uint64
}

var writerOps = func() []writerOp {
	ops := []writerOp{{"Write(nil)", 0, 0, 0}, {"Write(1)", 1, 0, 0}, {"Write(3)", 3, 0, 0}, {"Write(33)", 33, 0, 0}, {"WriteByte", -1, 0, 0}}
	for _, x := range [][2]uint64{{0, 0}, {4, 0}, {0, 5}, {0x01020304, 0x10203040}, {1<<32 - 1, 0}, {0, 1<<32 - 1}, {1<<32 - 2, 1}, {1<<31 + 7, 1<<31 - 8},
		{1<<32 - 1, 1}, {1 << 31, 1 << 31}, {1 << 32, 0}, {0, 1 << 32}, {^uint64(0), 1}, {^uint64(0), ^uint64(0)}, {^uint64(0) - 3, 8}, {3, ^uint64(0)}} {
		ops = append(ops, writerOp{fmt.Sprintf("WriteOffset(%d, %d)", x[0], x[1]), -2, x[0], x[1]})
	}
	return ops
}()

// limitWriter accepts room bytes, then fails.
type limitWriter struct {
	got    []byte
	room   int
	failed bool
	after  bool
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after = true
	}
	n := min(len(p), w.room)
	w.got = append(w.got, p[:n]...)
	w.room -= n
	if n < len(p) {
		w.failed = true
		return n, errInjected
	}
	return n, nil
}

func writerRun(c *rt.Ctx, writerOps []writerOp, seq []int, room int) bool {
	w := &limitWriter{room: room}
	ew := enc.NewEncodingWriter(w)
	var want []byte
	for at, oi := range seq {
		o := &writerOps[oi]
		last := at == len(seq)-1
		var err error
		var off uint64
		panicked := false
		c.Trans(1)
		func() {
			defer func() { panicked = recover() != nil }()
			switch o.n {
			case -1:
				err = ew.WriteByte(byte(0xa0 + at))
				want = append(want, byte(0xa0+at))
			case -2:
				off, err = ew.WriteOffset(o.prev, o.len)
			default:
				b := pattern(o.n)
				err = ew.Write(b)
				want = append(want, b...)
			}
		}()
		if o.n == -2 {
			fits := o.prev < 1<<32 && o.len < 1<<32 && o.prev+o.len < 1<<32
			if !fits {
				if !panicked && err == nil {
					c.Fail("%s succeeds, but no 4-byte offset can hold the sum", o.name)
				}
				if !bytes.Equal(w.got, want[:min(len(want), room)]) {
					c.Fail("impossible %s wrote something", o.name)
				}
				if last {
					c.Validated(1)
				}
				return false
			}
			want = binary.LittleEndian.AppendUint32(want, uint32(o.prev+o.len))
			if err == nil && off != o.prev+o.len {
				c.Fail("%s returns offset %d", o.name, off)
			}
		}
		if panicked {
			c.Fail("%s panics", o.name)
		}
		ok := len(want) <= room
		if (err == nil) != ok {
			c.Fail("%s says %v; the writer took %d bytes of %d", o.name, err, len(w.got), len(want))
		}
		if !bytes.Equal(w.got, want[:min(len(want), room)]) || ew.Written() != len(w.got) || w.after {
			c.Fail("%s: written %x (count %d), expected %x", o.name, w.got, ew.Written(), want[:min(len(want), room)])
		}
		if last {
			c.Validated(1)
		}
		if !ok {
			return false
		}
	}
	return true
}

// sequences explores all sequences of up to depth operations, depth first, pruned where run says so.
func sequences(c *rt.Ctx, n, depth int, name func(i int) string, what string, run func(seq []int) bool) {
	var seq []int
	var rec func()
	rec = func() {
		if len(seq) > 0 {
			c.State()
			c.Case(func() string {
				var s []string
				for _, i := range seq {
					s = append(s, name(i))
				}
				return what + ": " + strings.Join(s, ", ")
			})
			if !run(seq) {
				return
			}
		}
		if len(seq) == depth {
			return
		}
		for i := 0; i < n; i++ {
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

var c26 = &rt.Check{
	ID: "C26", Level: "model_checking",
	Rule:        "explicit exploration of all sequences (to the depth) of operations on a decoding reader and up to three nested scopes (21 operations: reads, typed reads, skips, opening and closing scopes, absurd lengths), over streams of every length to the bound and 5 ways of delivering them plus a seekable one; of shallower sequences with amounts of 64 to 10^6 bytes; of all sequences of operations on an encoding writer over writers that fail at every byte; and of the hash helpers over structured words; after every operation delivered bytes, positions, remaining spans, the bytes taken from the stream or given to the writer, and success are compared with a model; state = distinct (stream, sequence)",
	Assumptions: []string{"what a reader does after the stream failed, and a writer after it returned an error, is open (except that the scope still holds); a reader whose scope refused an operation is used on", "seeking past the end of a seekable stream, and reading from a scope of 2^63 or more bytes, is open", "an offset that needs more than 4 bytes may be refused by error or panic"},
	Units: func(quick bool) []rt.Unit {
		depth, top, wdepth := 5, 12, 4
		if !quick {
			depth, top, wdepth = 6, 14, 5
		}
		var us []rt.Unit
		for n := 0; n <= top; n++ {
			data := pattern(n)
			for mode := 0; mode <= 5; mode++ {
				m, seek := mode, false
				if mode == 5 {
					m, seek = 0, true
				}
				what := fmt.Sprintf("stream of %d bytes, delivery %d", n, mode)
				us = append(us, rt.Unit{Name: what, Run: func(c *rt.Ctx) {
					sequences(c, len(readerOps), depth, func(i int) string { return readerOps[i].name }, what, func(seq []int) bool {
						return readerRun(c, readerOps, seq, data, m, seek)
					})
				}})
			}
		}
		for room := 0; room <= 40; room++ {
			what := fmt.Sprintf("writer that fails after %d bytes", room)
			if room == 40 {
				room = 1 << 20
				what = "writer that does not fail"
			}
			room := room
			us = append(us, rt.Unit{Name: what, Run: func(c *rt.Ctx) {
				sequences(c, len(writerOps), wdepth, func(i int) string { return writerOps[i].name }, what, func(seq []int) bool {
					return writerRun(c, writerOps, seq, room)
				})
			}})
		}
		bdepth, sizes := 4, []int{99, 100, 511, 512, 513, 4096, 4097, 9000, 65536, 80001, 200000, 1100000}
		if !quick {
			bdepth, sizes = 5, append(sizes, 254, 255, 4095, 32768, 32769, 65535, 65537, 70000, 131072, 300001)
		}
		for _, n := range sizes {
			data := pattern(n)
			for mode := 0; mode <= 5; mode++ {
				m, seek := mode, false
				if mode == 5 {
					m, seek = 0, true
				}
				if (mode == 1 || mode == 3) && n > 100000 {
					continue
				}
				depth := bdepth
				if mode == 1 || mode == 3 || n > 100000 {
					depth--
				}
				what := fmt.Sprintf("bulk stream of %d bytes, delivery %d", n, mode)
				us = append(us, rt.Unit{Name: what, Run: func(c *rt.Ctx) {
					sequences(c, len(bulkReaderOps), depth, func(i int) string { return bulkReaderOps[i].name }, what, func(seq []int) bool {
						return readerRun(c, bulkReaderOps, seq, data, m, seek)
					})
				}})
			}
		}
		for _, room := range []int{0, 1, 63, 64, 100, 256, 511, 512, 513, 4095, 4096, 4097, 5000, 65535, 65536, 70001, 1 << 20, 1<<20 + 4096, 1 << 30} {
			what := fmt.Sprintf("bulk writer that fails after %d bytes", room)
			us = append(us, rt.Unit{Name: what, Run: func(c *rt.Ctx) {
				sequences(c, len(bulkWriterOps), bdepth-1, func(i int) string { return bulkWriterOps[i].name }, what, func(seq []int) bool {
					return writerRun(c, bulkWriterOps, seq, room)
				})
			}})
		}
		us = append(us, rt.Unit{Name: "fuzz mode", Run: func(c *rt.Ctx) {
			for n := 0; n < 4; n++ {
				c.State()
				c.Case(func() string { return fmt.Sprintf("EnableFuzzMode on reader %d", n) })
				dr := dec.NewDecodingReader(bytes.NewReader(pattern(40)))
				for k := 0; k < n; k++ {
					dr, _ = dr.Scope(uint64(20 - k))
				}
				c.Trans(2)
				c.Validated(2)
				if dr.IsFuzzMode() {
					c.Fail("a reader starts in fuzz mode")
				}
				if dr.EnableFuzzMode(); !dr.IsFuzzMode() {
					c.Fail("fuzz mode was not enabled")
				}
			}
		}})
		// under every function, with the zero hashes of another one
		for hi := range hashFns() {
			us = append(us, rt.Unit{Name: "hash helpers, " + hashFns()[hi].name, Run: func(c *rt.Ctx) {
				defer restoreSHA()
				h := htr.HashFn(hashFns()[hi].h)
				nodes := [][32]byte{{}}
				for k := 0; k < 10; k++ {
					nodes = append(nodes, htr.ZeroHashes[k], h(append(nodes[k][:], nodes[k][:]...)))
				}
				for k := 0; k < 70; k++ {
					var a [32]byte
					switch {
					case k < 32:
						a[k] = byte(k + 1)
					case k < 64:
						copy(a[:], pattern(k))
						a[k-32] ^= 0xff
					default:
						for i := range a {
							a[i] = byte(k * (i + 3))
						}
					}
					nodes = append(nodes, a)
				}
				ref := func(b ...byte) [32]byte { return h(b) }
				for _, other := range []int{0, hi, 9} {
					htr.InitZeroHashes(hashFns()[other].h)
					for i, a := range nodes {
						for j, b := range nodes {
							c.State()
							c.Case(func() string { return fmt.Sprintf("Combi of nodes %d and %d", i, j) })
							c.Trans(1)
							c.Validated(1)
							if got := h.Combi(a, b); got != ref(append(a[:], b[:]...)...) {
								c.Fail("gives %x", got)
							}
						}
						nums := []uint64{0, 1, 0x0102030405060708, ^uint64(0)}
						for k := 0; k < 64; k++ {
							nums = append(nums, 1<<k, 1<<k-1, 1<<k+1, ^uint64(0)-1<<k)
						}
						for _, n := range nums {
							c.State()
							c.Case(func() string { return fmt.Sprintf("MixIn of %d into node %d", n, i) })
							c.Trans(1)
							c.Validated(1)
							var b [32]byte
							binary.LittleEndian.PutUint64(b[:], n)
							if got := h.MixIn(a, n); got != ref(append(a[:], b[:]...)...) {
								c.Fail("gives %x", got)
							}
						}
					}
				}
			}})
		}
		return us
	},
}
