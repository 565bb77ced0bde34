package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/protolambda/zssz"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// chooser drives a depth-first exploration of environment answers. Answer 0 is the normal one; a run may contain at
// most budget other answers.
type chooser struct {
	path   []int // chosen answers
	opts   []int // number of answers at each point
	pos    int
	budget int
	used   int
}

func (ch *chooser) choose(n int) int {
	if ch.pos == len(ch.path) {
		ch.path = append(ch.path, 0)
		ch.opts = append(ch.opts, n)
	}
	x := ch.path[ch.pos]
	if x >= n { // nondeterministic library: treat as normal
		x = 0
	}
	ch.opts[ch.pos] = n
	ch.pos++
	if x != 0 {
		ch.used++
	}
	return x
}

// next moves to the next path; false when all are done.
func (ch *chooser) next(maxPoints int) bool {
	ch.path, ch.opts = ch.path[:ch.pos], ch.opts[:ch.pos]
	for i := len(ch.path) - 1; i >= 0; i-- {
		before := 0
		for _, x := range ch.path[:i] {
			if x != 0 {
				before++
			}
		}
		if i < maxPoints && ch.path[i]+1 < ch.opts[i] && (ch.path[i] != 0 || before < ch.budget) {
			ch.path[i]++
			ch.path, ch.opts = ch.path[:i+1], ch.opts[:i+1]
			ch.pos, ch.used = 0, 0
			return true
		}
	}
	return false
}

func (ch *chooser) start() { ch.pos, ch.used = 0, 0 }

var answerNames = []string{"full", "1 byte", "half", "0 bytes", "all but last", "full+EOF", "error now", "1 byte+error", "full+error", "EOF now", "1 byte+EOF"}

var errInjected = errors.New("injected reader failure")

// scriptReader answers each Read according to the chooser.
type scriptReader struct {
	ch       *chooser
	data     []byte // the stream
	pos      int
	claim    int
	failedAt int // stream position when a failure was reported (-1: none)
	over     bool
	log      []int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	if r.failedAt >= 0 {
		if r.log[len(r.log)-1] >= 9 {
			return 0, io.EOF
		}
		return 0, errInjected
	}
	if len(p) == 0 {
		return 0, nil
	}
	left := len(r.data) - r.pos
	n := min(len(p), left)
	if n == 0 {
		r.log = append(r.log, 9)
		return 0, io.EOF
	}
	// data+EOF is only legal when the stream really ends there
	a := r.ch.choose(len(answerNames))
	r.log = append(r.log, a)
	var err error
	switch a {
	case 1:
		n = 1
	case 2:
		n = (n + 1) / 2
	case 3:
		n = 0
	case 4:
		n = max(1, n-1)
	case 5:
		if r.pos+n == len(r.data) {
			err = io.EOF
		}
	case 6:
		n, err = 0, errInjected
	case 7:
		n, err = 1, errInjected
	case 8:
		err = errInjected
	case 9:
		n, err = 0, io.EOF
	case 10:
		n, err = 1, io.EOF
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos > r.claim {
		r.over = true
	}
	if a >= 6 {
		r.failedAt = r.pos
	}
	return n, err
}

func (r *scriptReader) String() string {
	var sb strings.Builder
	for _, a := range r.log {
		fmt.Fprintf(&sb, "[%s]", answerNames[a])
	}
	return sb.String()
}

// chunkReader delivers the stream in given chunks.
type chunkReader struct {
	data []byte
	pos  int
	cut  uint64 // bit i set: a chunk ends after byte i
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && r.pos < len(r.data) {
		p[n] = r.data[r.pos]
		n++
		r.pos++
		if r.cut>>(r.pos-1)&1 != 0 {
			break
		}
	}
	return n, nil
}

type op struct {
	name string
	run  func(t *typ, r io.Reader, n uint64) (string, error) // result in canonical form
}

var readOps = []op{
	{"Decode", func(t *typ, r io.Reader, n uint64) (string, error) {
		p := fresh(t)
		if err := zssz.Decode(r, n, p.Interface(), t.D); err != nil {
			return "", err
		}
		return string(valueBytes(t, p)), nil
	}},
	{"DryCheck", func(t *typ, r io.Reader, n uint64) (string, error) {
		return "", zssz.DryCheck(r, n, t.D)
	}},
	{"DecodeFuzzBytes", func(t *typ, r io.Reader, n uint64) (string, error) {
		p := fresh(t)
		k, err := zssz.DecodeFuzzBytes(r, n, p.Interface(), t.D)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(k, ":") + string(valueBytes(t, p)), nil
	}},
}

func (t *typ) String() string { return t.Name }

var streamTypes = func(quick bool) []universe.Entry {
	es := universe.All(3)
	if !quick {
		es = typesFor(false)
	} else {
		es = append(append(append(es, universe.Containers(universe.Rep, 2)...), universe.Wide()[40:48]...), universe.Tall()[4:12]...)
	}
	return dedup(es)
}

// few picks up to n small valid encodings with different lengths.
func few(t *typ, n, maxLen int) [][]byte {
	b := model.SmallBound()
	var out [][]byte
	seen := map[string]bool{}
	shapes := model.Shapes(t.S, &b, 0)
	step := max(1, len(shapes)/n)
	for i := 0; i < len(shapes) && len(out) < n; i += step {
		d := model.Ser(t.S, model.Filled(t.S, shapes[i], model.FillCount))
		if len(d) <= maxLen && !seen[string(d)] {
			seen[string(d)] = true
			out = append(out, d)
		}
	}
	if len(shapes) > 0 {
		d := model.Ser(t.S, model.Filled(t.S, shapes[len(shapes)-1], model.FillOnes))
		if len(d) <= maxLen && !seen[string(d)] {
			out = append(out, d)
		}
	}
	return out
}

var c10 = &rt.Check{
	ID: "C10", Level: "fault_enumeration",
	Rule: "depth-first exploration of all reader answer scripts (full, short, one byte, empty, data+EOF, failure, early EOF; at every read call) with at most 2 (thorough 3) deviations from normal delivery, plus all chunkings of short inputs, and chunk sizes and cut-off places around the usual buffer sizes for large ones; state/non-trivial case = distinct (type, operation, input, script); evaluation = one run of the real operation, compared with its result on a plain reader",
	Units: func(quick bool) []rt.Unit {
		budget, nIn, maxLen, points := 2, 4, 60, 24
		if !quick {
			budget, nIn, maxLen, points = 3, 6, 120, 30
		}
		us := perType(streamTypes(quick), func(c *rt.Ctx, t *typ) {
			ins := few(t, nIn, maxLen)
			for _, d := range few(t, 2, 40) {
				if len(d) > 0 {
					ins = append(ins, d[:len(d)-1], append(append([]byte{}, d...), 1))
					x := append([]byte{}, d...)
					x[0]++
					ins = append(ins, x)
				}
			}
			var fz [][]byte
			if n := t.D.FuzzMinLen(); n < 100 {
				for _, extra := range []int{0, 5, 20} {
					fz = append(fz, pattern(int(n)+extra))
				}
			}
			for oi, o := range readOps {
				set := ins
				if oi == 2 {
					set = fz
				}
				for _, d := range set {
					n := uint64(len(d))
					want, wantErr := o.run(t, plainReader{bytes.NewReader(d)}, n)
					for _, trail := range []int{0, 9} {
						stream := append(append([]byte{}, d...), pattern(trail)...)
						ch := &chooser{budget: budget}
						if len(d) > 40 {
							ch.budget = 1
						}
						if len(d) > 20 && quick && budget > 1 {
							points = 14
						}
						for {
							ch.start()
							r := &scriptReader{ch: ch, data: stream, claim: len(d), failedAt: -1}
							c.Case(func() string {
								return fmt.Sprintf("%s of %s (+%d trailing stream bytes), reader answers %s", o.name, hexs(d), trail, r)
							})
							got, err := o.run(t, r, n)
							c.State()
							c.Trans(1)
							c.Validated(1)
							if r.over {
								c.Fail("read beyond its %d bytes (to %d)", n, r.pos)
							}
							if r.failedAt >= 0 && r.failedAt < readLen(oi, want, wantErr, len(d)) {
								c.Count("failure_runs", 1)
								if err == nil {
									c.Fail("success although the reader failed after %d bytes", r.failedAt)
								}
							} else {
								if (err == nil) != (wantErr == nil) {
									c.Fail("result %v, with plain delivery %v", err, wantErr)
								}
								if err == nil && got != want {
									c.Fail("decoded %x, with plain delivery %x", got, want)
								}
								if err == nil && oi < 2 && r.pos != len(d) {
									c.Fail("consumed %d bytes instead of %d", r.pos, len(d))
								}
								if err == nil && oi == 2 && !strings.HasPrefix(got, fmt.Sprint(r.pos, ":")) {
									c.Fail("consumed %d bytes, reported otherwise: %q", r.pos, clip(got, 12))
								}
							}
							if !ch.next(points) {
								break
							}
						}
					}
					// claims beyond the stream never succeed
					if oi < 2 {
						for _, k := range []uint64{1, 2, 3, 4, 7, 8, 31, 32, 33, 100, 1 << 20} {
							c.Case(func() string { return fmt.Sprintf("%s of %s claimed as %d bytes", o.name, hexs(d), n+k) })
							if (isBounded(t.S) || k < 1<<16) && func() bool { _, err := o.run(t, plainReader{bytes.NewReader(d)}, n+k); return err == nil }() {
								c.Fail("success although the stream has only %d bytes", n)
							}
							c.State()
							c.Trans(1)
							c.Validated(1)
						}
					}
					lim := 10
					if !quick {
						lim = 14
					}
					if len(d) >= 2 && len(d) <= lim {
						for cut := uint64(0); cut < 1<<(len(d)-1); cut++ {
							c.Case(func() string { return fmt.Sprintf("%s of %s in chunks %b", o.name, hexs(d), cut) })
							got, err := o.run(t, &chunkReader{data: d, cut: cut}, n)
							c.State()
							c.Trans(1)
							c.Validated(1)
							if (err == nil) != (wantErr == nil) || err == nil && got != want {
								c.Fail("result %x, %v; with plain delivery %x, %v", got, err, want, wantErr)
							}
						}
					}
				}
			}
		})
		for _, e := range universe.Dynamic {
			us = append(us, rt.Unit{Name: "claims around 2^63, " + e.Name, Run: claimsPast63(e)})
		}
		return append(append(bigStreams(quick), us...), readerKindUnits(quick)...)
	},
}

// claimsPast63: dry checks of short streams with claims near 2^63 and 2^64, for types that allow such lengths.
func claimsPast63(e universe.Entry) func(c *rt.Ctx) {
	return func(c *rt.Ctx) {
		for _, lim := range []uint64{1<<63 - 1, 1 << 63, 1<<63 + 8, ^uint64(0) - 7, ^uint64(0), 1 << 62, 1 << 61, 1 << 32} {
			universe.DynLimit = lim
			t := build(c, e)
			for _, claim := range []uint64{1<<63 - 1, 1<<63 - 8, 1 << 63, 1<<63 + 1, 1<<63 + 8, 1<<63 + 24, ^uint64(0), ^uint64(0) - 7, ^uint64(0) - 31, 1 << 62, 1 << 61, 1<<61 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 4, 1 << 31} {
				for _, n := range []int{0, 1, 4, 5, 8, 64} {
					for _, d := range [][]byte{make([]byte, n), pattern(n), append([]byte{4, 0, 0, 0}, pattern(n)...), append([]byte{1, 5, 0, 0, 0}, pattern(n)...)} {
						c.State()
						c.Trans(1)
						c.Validated(1)
						c.Case(func() string {
							return fmt.Sprintf("limit %d: dry check of %s claimed as %d bytes", lim, hexs(d), claim)
						})
						if err := zssz.DryCheck(plainReader{bytes.NewReader(d)}, claim, t.D); err == nil {
							c.Fail("success although the stream has only %d bytes", len(d))
						}
					}
				}
			}
		}
	}
}

func isBounded(s *model.Schema) bool { return maxMem(s) < 1<<26 }

// readLen: how many bytes a successful run needs (a failure after that is invisible).
func readLen(oi int, want string, wantErr error, n int) int {
	if oi == 2 && wantErr == nil {
		k := 0
		fmt.Sscanf(want, "%d:", &k)
		return k
	}
	return n
}

// ---- writers

type failWriter struct {
	got     []byte
	calls   int
	failAt  int // call number that fails
	accept  int // bytes accepted by the failing call
	after   int // calls after the failure
	failed  bool
	partial []int // sizes of all calls
}

var errEOF = io.EOF

var errWrite = errors.New("injected writer failure")

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, errWrite
	}
	w.partial = append(w.partial, len(p))
	w.calls++
	if w.calls-1 == w.failAt {
		w.failed = true
		n := min(w.accept, len(p))
		w.got = append(w.got, p[:n]...)
		return n, errWrite
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

var c11 = &rt.Check{
	ID: "C11", Level: "fault_enumeration",
	Shift: true,
	Rule:  "for each value: every write call is made to fail, with every number of bytes accepted by the failing call (all for calls up to 40 bytes, boundary values beyond), and large encodings fail around the usual buffer sizes; state/non-trivial case = distinct (type, value, failing call, accepted bytes); evaluation = one Encode of the real code",
	Units: func(quick bool) []rt.Unit {
		nv, maxLen := 12, 300
		if !quick {
			nv, maxLen = 60, 700
		}
		return append(append(bigWriters(quick), writerKindUnits(quick)...), perType(heavyTypes(quick), func(c *rt.Ctx, t *typ) {
			for _, ser := range few(t, nv, maxLen) {
				v, ok := model.Deser(t.S, ser)
				if !ok {
					panic("harness: bad value")
				}
				p := model.NewGo(t.S, v)
				clean := &failWriter{failAt: -1}
				c.Case(vdesc(t, v))
				n, err := zssz.Encode(clean, p.Interface(), t.D)
				c.Trans(1)
				if err != nil || n != len(clean.got) || !bytes.Equal(clean.got, ser) {
					c.Fail("without failures: n=%d err=%v wrote %s", n, err, hexs(clean.got))
				}
				for k, sz := range clean.partial {
					for a := 0; a <= sz; a++ {
						if sz > 40 && a > 2 && a < sz-2 && a != 31 && a != 32 {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("%s; write call %d of %d accepts %d of %d bytes and fails", v, k, len(clean.partial), a, sz)
						})
						w := &failWriter{failAt: k, accept: a}
						n, err := zssz.Encode(w, p.Interface(), t.D)
						c.State()
						c.Trans(1)
						c.Validated(1)
						if !w.failed {
							continue
						}
						if err == nil {
							c.Fail("no error although the writer failed (n=%d)", n)
						}
						if n != len(w.got) {
							c.Fail("returned %d, the writer accepted %d bytes", n, len(w.got))
						}
						if !bytes.HasPrefix(ser, w.got) {
							c.Fail("wrote %s, not a prefix of %s", hexs(w.got), hexs(ser))
						}
						if w.after != 0 {
							c.Fail("%d more writes after the failure", w.after)
						}
					}
				}
			}
		})...)
	},
}
