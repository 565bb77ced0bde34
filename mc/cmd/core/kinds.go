package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/protolambda/zssz"

	"verif/mc/model"
	"verif/mc/rt"
)

// Readers and writers of all kinds: standard ones, ones with more methods than needed, ones that fail with any error.

type netErr struct{ timeout, temporary bool }

func (e netErr) Error() string   { return "i/o problem" }
func (e netErr) Timeout() bool   { return e.timeout }
func (e netErr) Temporary() bool { return e.temporary }

type emptyErr struct{}

func (*emptyErr) Error() string { return "" }

type unhashable struct{ s []string }

func (e unhashable) Error() string { return "?" }

var failures = []error{
	errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, netErr{true, true}, netErr{false, true}, netErr{true, false}, (*emptyErr)(nil), unhashable{}, bufio.ErrBufferFull,
	fmt.Errorf("wrapped: %w", io.EOF), errors.Join(io.EOF, errInjected), iotest.ErrTimeout,
}

// richReader has all the methods a reader of bytes may have; they agree with each other.
type richReader struct {
	data []byte
	pos  int
	fail int // number of bytes it delivers before it fails (-1: does not)
	err  error
	with bool // the failure comes together with the last bytes
	max  int  // most bytes per Read
	past int  // furthest position given out
}

func (r *richReader) left() int {
	n := len(r.data) - r.pos
	if r.fail >= 0 {
		n = min(n, max(0, r.fail-r.pos))
	}
	return n
}

func (r *richReader) stop() error {
	if r.fail >= 0 && r.pos >= r.fail {
		return r.err
	}
	return io.EOF
}

func (r *richReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := r.left()
	if n == 0 {
		return 0, r.stop()
	}
	if n = min(n, len(p)); r.max > 0 {
		n = min(n, r.max)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	r.past = max(r.past, r.pos)
	if r.with && r.left() == 0 {
		return n, r.stop()
	}
	return n, nil
}

func (r *richReader) ReadByte() (byte, error) {
	if r.left() == 0 {
		return 0, r.stop()
	}
	r.pos++
	r.past = max(r.past, r.pos)
	return r.data[r.pos-1], nil
}

func (r *richReader) UnreadByte() error { r.pos--; return nil }

func (r *richReader) ReadRune() (rune, int, error) {
	b, err := r.ReadByte()
	return rune(b), 1, err
}

func (r *richReader) ReadAt(p []byte, off int64) (int, error) {
	end := r.pos + r.left()
	if off >= int64(end) {
		return 0, r.stop()
	}
	n := copy(p, r.data[off:end])
	r.past = max(r.past, int(off)+n)
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (r *richReader) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(r.data[r.pos : r.pos+r.left()])
	r.pos += n
	r.past = max(r.past, r.pos)
	return int64(n), err
}

func (r *richReader) Peek(n int) ([]byte, error) {
	k := min(n, r.left())
	r.past = max(r.past, r.pos+k)
	if k < n {
		return r.data[r.pos : r.pos+k], r.stop()
	}
	return r.data[r.pos : r.pos+k], nil
}

func (r *richReader) Discard(n int) (int, error) {
	k := min(n, r.left())
	r.pos += k
	r.past = max(r.past, r.pos)
	if k < n {
		return k, r.stop()
	}
	return k, nil
}

func (r *richReader) Len() int      { return len(r.data) - r.pos }
func (r *richReader) Buffered() int { return r.left() }
func (r *richReader) Bytes() []byte { return r.data[r.pos:] }
func (r *richReader) Close() error  { return nil }

type richSeeker struct{ *richReader }

func (r richSeeker) Seek(off int64, whence int) (int64, error) {
	p := off
	switch whence {
	case io.SeekCurrent:
		p += int64(r.pos)
	case io.SeekEnd:
		p += int64(len(r.data))
	}
	if p < 0 {
		return 0, errInjected
	}
	if r.fail >= 0 && p > int64(r.fail) {
		p = int64(r.fail)
	}
	r.pos = int(min(p, int64(len(r.data))))
	return int64(r.pos), nil
}

type onlyByteReader struct{ r *richReader }

func (o onlyByteReader) Read(p []byte) (int, error) { return o.r.Read(p) }
func (o onlyByteReader) ReadByte() (byte, error)    { return o.r.ReadByte() }

// noise delivers the bytes through a buffer that it overwrites and in pieces of changing size, with empty answers between.
type noise struct {
	data []byte
	n    int
}

func (r *noise) Read(p []byte) (int, error) {
	r.n++
	if len(p) == 0 || r.n%3 == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	k := min(len(p), len(r.data), 1+r.n*5%7)
	for i := range p {
		p[i] = 0xa5 // a reader may use all of p as scratch space
	}
	copy(p, r.data[:k])
	r.data = r.data[k:]
	return k, nil
}

type readerKind struct {
	name string
	mk   func(d []byte, claim int) io.Reader
}

var readerKinds = []readerKind{
	{"bytes.Reader", func(d []byte, _ int) io.Reader { return bytes.NewReader(d) }},
	{"bytes.Reader in the middle", func(d []byte, _ int) io.Reader {
		r := bytes.NewReader(append([]byte{9, 8, 7}, d...))
		r.Seek(3, io.SeekStart)
		return r
	}},
	{"bytes.Buffer", func(d []byte, _ int) io.Reader { return bytes.NewBuffer(append([]byte{}, d...)) }},
	{"strings.Reader", func(d []byte, _ int) io.Reader { return strings.NewReader(string(d)) }},
	{"bufio.Reader", func(d []byte, _ int) io.Reader { return bufio.NewReader(plainReader{bytes.NewReader(d)}) }},
	{"bufio.Reader of 16 bytes", func(d []byte, _ int) io.Reader { return bufio.NewReaderSize(plainReader{bytes.NewReader(d)}, 16) }},
	{"io.SectionReader", func(d []byte, _ int) io.Reader {
		return io.NewSectionReader(bytes.NewReader(append([]byte{9, 8, 7}, d...)), 3, int64(len(d)))
	}},
	{"io.LimitedReader, exact", func(d []byte, claim int) io.Reader {
		return &io.LimitedReader{R: bytes.NewReader(d), N: int64(claim)}
	}},
	{"io.LimitedReader, larger", func(d []byte, claim int) io.Reader {
		return &io.LimitedReader{R: bytes.NewReader(d), N: int64(claim) + 5}
	}},
	{"io.MultiReader", func(d []byte, claim int) io.Reader {
		a, b := min(len(d), claim)/3, min(len(d), claim)
		return io.MultiReader(bytes.NewReader(d[:a]), bytes.NewBuffer(nil), bytes.NewReader(d[a:b]), strings.NewReader(string(d[b:])))
	}},
	{"io.TeeReader", func(d []byte, _ int) io.Reader { return io.TeeReader(bytes.NewReader(d), io.Discard) }},
	{"one byte at a time", func(d []byte, _ int) io.Reader { return iotest.OneByteReader(bytes.NewReader(d)) }},
	{"half of what is asked for", func(d []byte, _ int) io.Reader { return iotest.HalfReader(bytes.NewReader(d)) }},
	{"EOF with the last bytes", func(d []byte, _ int) io.Reader { return iotest.DataErrReader(bytes.NewReader(d)) }},
	{"with many methods", func(d []byte, _ int) io.Reader { return &richReader{data: d, fail: -1} }},
	{"with many methods, short reads", func(d []byte, _ int) io.Reader { return &richReader{data: d, fail: -1, max: 3} }},
	{"with many methods, EOF with the last bytes", func(d []byte, _ int) io.Reader { return &richReader{data: d, fail: -1, with: true} }},
	{"with many methods and Seek", func(d []byte, _ int) io.Reader { return richSeeker{&richReader{data: d, fail: -1}} }},
	{"with ReadByte only", func(d []byte, _ int) io.Reader { return onlyByteReader{&richReader{data: d, fail: -1}} }},
	{"5 empty answers before every byte", func(d []byte, _ int) io.Reader {
		return &lazy{r: iotest.OneByteReader(bytes.NewReader(d)), empty: 5}
	}},
	{"200 empty answers before every piece", func(d []byte, _ int) io.Reader {
		return &lazy{r: bytes.NewReader(d), empty: 200}
	}},
	{"uneven pieces, using the buffer as scratch space", func(d []byte, _ int) io.Reader { return &noise{data: d} }},
}

// ownMemory: readers over the given memory itself.
var ownMemory = []readerKind{
	{"bytes.Buffer", func(d []byte, _ int) io.Reader { return bytes.NewBuffer(d) }},
	{"bytes.Reader", func(d []byte, _ int) io.Reader { return bytes.NewReader(d) }},
	{"bufio.Reader", func(d []byte, _ int) io.Reader { return bufio.NewReader(plainReader{bytes.NewReader(d)}) }},
	{"bufio.Reader of 64 bytes", func(d []byte, _ int) io.Reader { return bufio.NewReaderSize(plainReader{bytes.NewReader(d)}, 64) }},
	{"io.LimitedReader of a bytes.Buffer", func(d []byte, n int) io.Reader { return &io.LimitedReader{R: bytes.NewBuffer(d), N: int64(n)} }},
	{"a reader with many methods", func(d []byte, _ int) io.Reader { return &richReader{data: d, fail: -1} }},
	{"a seeker with many methods", func(d []byte, _ int) io.Reader { return richSeeker{&richReader{data: d, fail: -1}} }},
}

// lazy answers with nothing a number of times before every byte or piece.
type lazy struct {
	r     io.Reader
	empty int
	n     int
}

func (l *lazy) Read(p []byte) (int, error) {
	if l.n++; l.n%(l.empty+1) != 0 {
		return 0, nil
	}
	return l.r.Read(p)
}

func kindInputs(t *typ) (ins, fz [][]byte) {
	ins = few(t, 4, 80)
	for _, d := range few(t, 3, 60) {
		if len(d) > 0 {
			x := append([]byte{}, d...)
			x[0]++
			ins = append(ins, d[:len(d)-1], append(d[:len(d):len(d)], 1), x)
		}
	}
	if n := t.D.FuzzMinLen(); n < 200 {
		for _, extra := range []int{0, 5, 20} {
			fz = append(fz, pattern(int(n)+extra))
		}
	}
	return
}

func readerKindUnits(quick bool) []rt.Unit {
	return renamed("kinds of readers, ", perType(streamTypes(quick), func(c *rt.Ctx, t *typ) {
		ins, fz := kindInputs(t)
		for oi, o := range readOps {
			set := ins
			if oi == 2 {
				set = fz
			}
			for _, d := range set {
				n := uint64(len(d))
				want, wantErr := o.run(t, plainReader{bytes.NewReader(d)}, n)
				for _, trail := range []int{0, 9} {
					stream := append(append([]byte{}, d...), pattern(trail)...)
					for _, k := range readerKinds {
						c.State()
						c.Case(func() string {
							return fmt.Sprintf("%s of %s (+%d trailing stream bytes) from a reader: %s", o.name, hexs(d), trail, k.name)
						})
						r := k.mk(append([]byte{}, stream...), len(d))
						got, err := o.run(t, r, n)
						c.Trans(1)
						c.Validated(1)
						if (err == nil) != (wantErr == nil) || err == nil && got != want {
							c.Fail("result %x, %v; from a plain reader %x, %v", got, err, want, wantErr)
						}
						if err == nil {
							used := readLen(oi, want, wantErr, len(d))
							rest, _ := io.ReadAll(r)
							if l, ok := r.(*io.LimitedReader); ok {
								x, _ := io.ReadAll(l.R)
								rest = append(rest, x...)
							}
							if !bytes.Equal(rest, stream[used:]) {
								c.Fail("left %s of the stream, should be %s", hexs(rest), hexs(stream[used:]))
							}
						}
					}
				}
				// failures
				need := readLen(oi, want, wantErr, len(d))
				for fi, e := range failures {
					for at := 0; at <= len(d); at++ {
						if len(d) > 24 && at%(len(d)/8) != fi%(len(d)/8) && at != len(d)-1 {
							continue
						}
						for _, with := range []bool{false, true} {
							for seek := 0; seek < 3; seek++ {
								x := &richReader{data: d, fail: at, err: e, with: with}
								var r io.Reader = x
								switch seek {
								case 1:
									r = richSeeker{x}
								case 2:
									r = plainReader{x}
								}
								c.State()
								c.Case(func() string {
									return fmt.Sprintf("%s of %s from a reader (%T) that fails after %d bytes with %T %v, together with data: %v", o.name, hexs(d), r, at, e, e, with)
								})
								got, err := o.run(t, r, n)
								c.Trans(1)
								c.Validated(1)
								if at < need && err == nil {
									c.Fail("success")
								}
								if at >= need && ((err == nil) != (wantErr == nil) || err == nil && got != want) {
									c.Fail("result %x, %v; from a plain reader %x, %v", got, err, want, wantErr)
								}
							}
						}
					}
				}
			}
		}
	}))
}

// richWriter has all the methods a writer may have.
type richWriter struct {
	got    []byte
	left   int // bytes it accepts before it fails (-1: does not)
	err    error
	after  int
	failed bool
}

func (w *richWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.err
	}
	n := len(p)
	if w.left >= 0 && n > w.left {
		n = w.left
		w.failed = true
	}
	w.got = append(w.got, p[:n]...)
	if w.left >= 0 {
		w.left -= n
	}
	if w.failed {
		return n, w.err
	}
	return n, nil
}

func (w *richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	d, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(d)
	return int64(n), err
}

func (w *richWriter) Flush() error   { return nil }
func (w *richWriter) Grow(int)       {}
func (w *richWriter) Len() int       { return len(w.got) }
func (w *richWriter) Available() int { return 4 }

// byteWriter is a writer that is no pointer.
type byteWriter struct{ w *richWriter }

func (b byteWriter) Write(p []byte) (int, error) { return b.w.Write(p) }

type funcWriter func(p []byte) (int, error)

func (f funcWriter) Write(p []byte) (int, error) { return f(p) }

func writerKindUnits(quick bool) []rt.Unit {
	kinds := []struct {
		name string
		mk   func(got *[]byte) (io.Writer, func())
	}{
		{"bytes.Buffer", func(got *[]byte) (io.Writer, func()) {
			b := &bytes.Buffer{}
			return b, func() { *got = b.Bytes() }
		}},
		{"bytes.Buffer with content", func(got *[]byte) (io.Writer, func()) {
			b := bytes.NewBufferString("before")
			return b, func() { *got = bytes.TrimPrefix(b.Bytes(), []byte("before")) }
		}},
		{"bufio.Writer", func(got *[]byte) (io.Writer, func()) {
			b := &bytes.Buffer{}
			w := bufio.NewWriter(b)
			return w, func() { w.Flush(); *got = b.Bytes() }
		}},
		{"bufio.Writer of 16 bytes", func(got *[]byte) (io.Writer, func()) {
			b := &bytes.Buffer{}
			w := bufio.NewWriterSize(b, 16)
			return w, func() { w.Flush(); *got = b.Bytes() }
		}},
		{"strings.Builder", func(got *[]byte) (io.Writer, func()) {
			b := &strings.Builder{}
			return b, func() { *got = []byte(b.String()) }
		}},
		{"io.MultiWriter", func(got *[]byte) (io.Writer, func()) {
			b, x := &bytes.Buffer{}, &bytes.Buffer{}
			return io.MultiWriter(x, b), func() { *got = b.Bytes() }
		}},
		{"with many methods", func(got *[]byte) (io.Writer, func()) {
			b := &richWriter{left: -1}
			return b, func() { *got = b.got }
		}},
		{"no pointer", func(got *[]byte) (io.Writer, func()) {
			b := &richWriter{left: -1}
			return byteWriter{b}, func() { *got = b.got }
		}},
		{"function", func(got *[]byte) (io.Writer, func()) {
			return funcWriter(func(p []byte) (int, error) {
				*got = append(*got, p...)
				return len(p), nil
			}), func() {}
		}},
	}
	nv, maxLen := 8, 200
	if !quick {
		nv, maxLen = 40, 500
	}
	return renamed("kinds of writers, ", perType(heavyTypes(quick), func(c *rt.Ctx, t *typ) {
		for _, ser := range few(t, nv, maxLen) {
			v, _ := model.Deser(t.S, ser)
			p := model.NewGo(t.S, v)
			for _, k := range kinds {
				c.State()
				c.Case(func() string { return fmt.Sprintf("%s to a writer: %s", v, k.name) })
				var got []byte
				w, done := k.mk(&got)
				n, err := zssz.Encode(w, p.Interface(), t.D)
				done()
				c.Trans(1)
				c.Validated(1)
				if err != nil || n != len(ser) || !bytes.Equal(got, ser) {
					c.Fail("wrote %s, returned %d, %v; the encoding is %s", hexs(got), n, err, hexs(ser))
				}
			}
			for fi, e := range failures {
				for at := 0; at < len(ser); at++ {
					if len(ser) > 12 && at%(len(ser)/6) != fi%(len(ser)/6) && at != len(ser)-1 {
						continue
					}
					for rich := 0; rich < 2; rich++ {
						x := &richWriter{left: at, err: e}
						var w io.Writer = x
						if rich == 0 {
							w = byteWriter{x}
						}
						c.State()
						c.Case(func() string {
							return fmt.Sprintf("%s to a writer (%T) that fails after %d bytes with %T %v", v, w, at, e, e)
						})
						n, err := zssz.Encode(w, p.Interface(), t.D)
						c.Trans(1)
						c.Validated(1)
						switch {
						case err == nil:
							c.Fail("no error (n=%d)", n)
						case n != len(x.got):
							c.Fail("returned %d, the writer accepted %d bytes", n, len(x.got))
						case !bytes.Equal(ser[:at], x.got):
							c.Fail("wrote %s, not a prefix of %s", hexs(x.got), hexs(ser))
						case x.after != 0:
							c.Fail("%d more writes after the failure", x.after)
						}
					}
				}
			}
		}
	}))
}

func renamed(prefix string, us []rt.Unit) []rt.Unit {
	for i := range us {
		us[i].Name = prefix + us[i].Name
	}
	return us
}
