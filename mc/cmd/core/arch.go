package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// The -arch mode: runs units of the cross-host enumeration and prints, per unit, the number of cases and a digest of
// everything the library returned. C21 runs it on hosts of different byte order and word size and compares.

// rec digests the results of the library calls of one unit.
type rec struct {
	h    uint64
	n    uint64
	show uint64 // print every result of this case
	list bool   // print the digest after every case
	w    *bufio.Writer
}

func (r *rec) end() {
	if r.list && r.n > 0 {
		fmt.Fprintf(r.w, "case %d %016x\n", r.n, r.h)
	}
}

// start begins a case.
func (r *rec) start(desc func() string) {
	r.end()
	r.n++
	if r.show == r.n {
		fmt.Fprintf(r.w, "desc %s\n", strconv.Quote(desc()))
	}
}

func (r *rec) mix(b []byte) {
	h := r.h ^ uint64(len(b))
	for _, x := range b {
		h = (h ^ uint64(x)) * 0x100000001b3
	}
	r.h = h*0x9E3779B97F4A7C15 ^ h>>29
}

func (r *rec) bytes(name string, b []byte) {
	r.mix(b)
	if r.show == r.n {
		fmt.Fprintf(r.w, "res %s\n", strconv.Quote(name+" "+hexs(b)))
	}
}

func (r *rec) num(name string, x uint64) {
	var b [8]byte
	for i := range b {
		b[i] = byte(x >> (8 * i))
	}
	r.mix(b[:])
	if r.show == r.n {
		fmt.Fprintf(r.w, "res %s\n", strconv.Quote(fmt.Sprint(name, " ", x)))
	}
}

func (r *rec) verdict(name string, err error) {
	x := uint64(1)
	if err != nil {
		x = 0
	}
	r.mix([]byte{byte(x)})
	if r.show == r.n {
		fmt.Fprintf(r.w, "res %s\n", strconv.Quote(fmt.Sprintf("%s ok=%d (%v)", name, x, err)))
	}
}

type memoryFault struct{ n uint64 }

// op runs one library operation; a panic is one of its possible outcomes.
func (r *rec) op(name string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if re, ok := e.(runtime.Error); ok && strings.Contains(re.Error(), "nil pointer") {
				panic(memoryFault{r.n}) // not recoverable on every host: ends the unit everywhere
			}
			r.mix([]byte("panic"))
			if r.show == r.n {
				fmt.Fprintf(r.w, "res %s\n", strconv.Quote(fmt.Sprintf("%s panics: %v", name, e)))
			}
		}
	}()
	f()
}

var archFn = htr.HashFn(cheapHash)

// archValue: encode, size, roots of a value; decode of its encoding.
func archValue(r *rec, t *typ, v *model.Val, ser []byte) {
	r.op("encode", func() {
		p := model.NewGo(t.S, v)
		b, n, err := encode(t, p)
		r.verdict("Encode", err)
		r.bytes("Encode", b)
		r.num("Encode length", uint64(n))
		r.num("SizeOf", zssz.SizeOf(p.Interface(), t.D))
	})
	r.op("root", func() {
		p := model.NewGo(t.S, v)
		x := zssz.HashTreeRoot(archFn, p.Interface(), t.D)
		r.bytes("HashTreeRoot", x[:])
		if sd, ok := t.D.(types.SignedSSZ); ok {
			x := zssz.SigningRoot(archFn, p.Interface(), sd)
			r.bytes("SigningRoot", x[:])
		}
	})
	archInput(r, t, ser)
}

// archInput: the verdicts on an input and the decoded value.
func archInput(r *rec, t *typ, d []byte) {
	r.op("decode", func() {
		p := fresh(t)
		rd := bytes.NewReader(d)
		err := zssz.Decode(rd, uint64(len(d)), p.Interface(), t.D)
		r.verdict("Decode", err)
		if err == nil {
			r.num("unread", uint64(rd.Len()))
			r.bytes("decoded value", valueBytes(t, p))
		}
	})
	r.op("dry check", func() {
		r.verdict("DryCheck", zssz.DryCheck(bytes.NewReader(d), uint64(len(d)), t.D))
	})
}

func archFuzz(r *rec, t *typ, d []byte) {
	r.op("fuzz decode", func() {
		p := fresh(t)
		n, err := zssz.DecodeFuzzBytes(bytes.NewReader(d), uint64(len(d)), p.Interface(), t.D)
		r.verdict("DecodeFuzzBytes", err)
		if err == nil {
			r.num("consumed", n)
			r.bytes("value", valueBytes(t, p))
		}
	})
}

func archBounds(r *rec, t *typ) {
	r.op("bounds", func() {
		r.num("MinLen", t.D.MinLen())
		r.num("MaxLen", t.D.MaxLen())
		r.num("FixedLen", t.D.FixedLen())
		r.verdict("IsFixed", map[bool]error{false: errEOF}[t.D.IsFixed()])
		r.num("FuzzMinLen", t.D.FuzzMinLen())
		r.num("FuzzMaxLen", t.D.FuzzMaxLen())
	})
}

type archUnit struct {
	Name string
	Run  func(c *rt.Ctx, r *rec)
}

// archInputs: the encodings of the type's small values, one structural fault each, truncations, extensions, byte
// changes, and all short strings over a small alphabet.
func archInputs(c *rt.Ctx, t *typ, quick bool, f func(d []byte)) {
	out := func(d []byte) {
		if c.First(d) {
			f(d)
		}
	}
	b := model.SmallBound()
	shapes := model.Shapes(t.S, &b, 0)
	maxN := 6
	if !quick {
		maxN = 40
	}
	step := 1 + len(shapes)/maxN
	for i := 0; i < len(shapes); i += step {
		v := model.Filled(t.S, shapes[len(shapes)-1-i], model.FillCount)
		d := model.Ser(t.S, v)
		out(d)
		if quick && len(d) > 100 && (i > 0 || len(d) > 600) {
			continue
		}
		model.Faults(t.S, v, func(f model.Fault) {
			if quick && len(d) > 100 && (f.N == 2 || f.N == 32 || f.Node%5 > 1) {
				return
			}
			if quick && (f.N == 3 || f.N == 8 || f.Junk == 1) {
				return
			}
			out(model.SerFault(t.S, v, f))
		})
		model.OverLimit(t.S, v, 70, func(v *model.Val) { out(model.Ser(t.S, v)) })
		stride := 1 + len(d)/24
		x := append([]byte{}, d...)
		for k := 0; k < len(d); k += stride {
			out(d[:k])
			for _, y := range []byte{0, 1, 2, 0x80, 0xff, d[k] + 1, d[k] - 1, d[k] + 4} {
				x[k] = y
				out(x)
			}
			x[k] = d[k]
		}
	}
	for _, al := range []struct {
		a []byte
		n int
	}{{allBytes(), 1}, {[]byte{0, 1, 4}, 5}, {[]byte{0, 1, 2, 0x80, 0xff}, 3}} {
		buf := make([]byte, al.n)
		var rec func(n int)
		rec = func(n int) {
			out(buf[:n])
			if n < al.n {
				for _, x := range al.a {
					buf[n] = x
					rec(n + 1)
				}
			}
		}
		rec(0)
	}
}

// archUnits: the enumeration every host runs.
func archUnits(quick bool) []archUnit {
	var us []archUnit
	vb := model.SmallBound()
	vb.TopLen, vb.TopByte, vb.TopBit, vb.Leaves, vb.FullLeaf = 9, 34, 34, 10, false
	if !quick {
		vb = model.QuickBound()
	}
	for _, e := range heavyTypes(quick) {
		us = append(us, archUnit{"type " + e.Name, func(c *rt.Ctx, r *rec) {
			t := build(c, e)
			r.start(func() string { return "bounds" })
			archBounds(r, t)
			model.Values(t.S, &vb, func(v *model.Val) bool {
				ser := model.Ser(t.S, v)
				if c.First(ser) && !(quick && len(ser) > 2000 && r.n > 200) {
					r.start(vdesc(t, v))
					archValue(r, t, v, ser)
				}
				return true
			})
			archInputs(c, t, quick, func(d []byte) {
				r.start(func() string { return "input " + hexs(d) })
				archInput(r, t, d)
			})
			if fuzzInDomain(t) {
				lo := t.D.FuzzMinLen()
				for n := max(lo, 2) - 2; n < lo+26 && n < 1500; n++ {
					for fill := 0; fill < 3; fill++ {
						d := make([]byte, n)
						for i := range d {
							d[i] = byte([]int{0, 0xff, i*37 + 1}[fill])
						}
						r.start(func() string { return "fuzz input " + hexs(d) })
						archFuzz(r, t, d)
					}
				}
			}
		}})
	}
	// limits
	for _, e := range universe.Dynamic {
		for _, part := range split(dynLimits(true), 3) {
			us = append(us, archUnit{fmt.Sprintf("%s D=%d..", e.Name, part[0]), func(c *rt.Ctx, r *rec) {
				for _, lim := range part {
					universe.DynLimit = lim
					t := build(c, e)
					if !t.S.MaxLen().IsUint64() {
						continue
					}
					r.start(func() string { return fmt.Sprintf("limit %d, bounds", lim) })
					archBounds(r, t)
					ns := []uint64{0, 1, 2, 3, 5}
					if lim < 300 {
						ns = append(ns, lim, lim+1, lim+8)
					}
					for _, n := range ns {
						for _, v := range lenVals(t.S, n) {
							ser := model.Ser(t.S, v)
							desc := func() string { return fmt.Sprintf("limit %d value %s", lim, clip(v.String(), 300)) }
							r.start(desc)
							if n <= lim {
								archValue(r, t, v, ser)
							}
							archInput(r, t, ser)
							archInput(r, t, append(ser[:len(ser):len(ser)], 1))
						}
					}
				}
			}})
		}
	}
	// larger values
	capped := 1 << 13
	if !quick {
		capped = 80000
	}
	for _, name := range []string{"L[uint16, N70000]", "L[uint32, N70000]", "L[uint64, N70000]", "L[bool, N70000]", "L[byte, N70000]", "BL[N70000]"} {
		e := universe.Find(name)[0]
		us = append(us, archUnit{"long " + name, func(c *rt.Ctx, r *rec) {
			t := build(c, e)
			ns := []int{}
			for n := 0; n < 150; n++ {
				ns = append(ns, n)
			}
			for _, m := range []int{255, 256, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8192, 16385, 65535, 65536, 65537, 70000} {
				ns = append(ns, m)
			}
			for _, n := range ns {
				if n > capped || quick && n > 150 && n > 4100 && t.S.Kind != model.KBytes {
					continue
				}
				v := &model.Val{}
				switch t.S.Kind {
				case model.KBytes:
					v.B = pattern(n)
				case model.KBitlist:
					v.B = pattern(n)
					for i := range v.B {
						v.B[i] = v.B[i] >> 2 & 1
					}
				default:
					v.E = []*model.Val{}
					for i := 0; i < n; i++ {
						x := uint64(i+1) * 0x0102030405060709
						if t.S.Elem.Kind == model.KBool {
							x = x >> 3 & 1
						} else {
							x &= ^uint64(0) >> (64 - 8*uint(t.S.Elem.Typ.Size()))
						}
						v.E = append(v.E, &model.Val{U: x})
					}
				}
				r.start(func() string { return fmt.Sprintf("%d items", n) })
				archValue(r, t, v, model.Ser(t.S, v))
			}
		}})
	}
	for _, e := range universe.Big {
		us = append(us, archUnit{"big " + e.Name, func(c *rt.Ctx, r *rec) {
			t := build(c, e)
			r.start(func() string { return "bounds" })
			archBounds(r, t)
			b := model.SmallBound()
			for _, sh := range model.Shapes(t.S, &b, 0) {
				for _, f := range []model.Fill{model.FillCount, model.FillOnes} {
					v := model.Filled(t.S, sh, f)
					ser := model.Ser(t.S, v)
					if len(ser) > capped || !c.First(ser) {
						continue
					}
					r.start(vdesc(t, v))
					archValue(r, t, v, ser)
					if len(ser) < 100 || !quick && len(ser) < 300 {
						model.Faults(t.S, v, func(f model.Fault) {
							d := model.SerFault(t.S, v, f)
							if c.First(d) {
								r.start(func() string { return "input " + hexs(d) })
								archInput(r, t, d)
							}
						})
					}
				}
			}
		}})
	}
	// claims beyond the data
	us = append(us, archUnit{"claims", func(c *rt.Ctx, r *rec) {
		for _, e := range universe.All(3) {
			t := build(c, e)
			b := model.SmallBound()
			shapes := model.Shapes(t.S, &b, 0)
			d := model.Ser(t.S, model.Filled(t.S, shapes[len(shapes)-1], model.FillCount))
			for _, claim := range []uint64{0, 1, uint64(len(d)) - 1, uint64(len(d)) + 1, uint64(len(d)) + 4, uint64(len(d)) + 256, 70000} {
				r.start(func() string { return fmt.Sprintf("%s: claim %d for %s", e.Name, claim, hexs(d)) })
				r.op("decode", func() {
					p := fresh(t)
					r.verdict("Decode", zssz.Decode(bytes.NewReader(d), claim, p.Interface(), t.D))
				})
				r.op("dry check", func() {
					r.verdict("DryCheck", zssz.DryCheck(bytes.NewReader(d), claim, t.D))
				})
			}
			if isBounded(t.S) {
				for _, claim := range []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + uint64(len(d)), 1 << 63, ^uint64(0)} {
					r.start(func() string { return fmt.Sprintf("%s: claim %d for %s", e.Name, claim, hexs(d)) })
					r.op("decode", func() {
						p := fresh(t)
						r.verdict("Decode", zssz.Decode(bytes.NewReader(d), claim, p.Interface(), t.D))
					})
				}
			}
		}
	}})
	// merkle trees
	us = append(us, archUnit{"depth", func(c *rt.Ctx, r *rec) {
		xs := hugeLimits(0)
		for i := uint64(0); i < 3000; i++ {
			xs = append(xs, i)
		}
		for _, x := range xs {
			r.start(func() string { return fmt.Sprintf("GetDepth(%d)", x) })
			r.op("depth", func() { r.num("GetDepth", uint64(merkle.GetDepth(x))) })
		}
	}})
	top := uint64(40)
	if !quick {
		top = 140
	}
	for n := uint64(0); n <= top; n++ {
		us = append(us, archUnit{fmt.Sprintf("tree of %d leaves", n), func(c *rt.Ctx, r *rec) {
			leaves := leafSet(n, 0)
			lims := []uint64{}
			for l := n; l < 2*n+8; l++ {
				lims = append(lims, l)
			}
			lims = append(lims, hugeLimits(2*n+8)...)
			for i, lim := range lims {
				r.start(func() string { return fmt.Sprintf("count %d limit %d", n, lim) })
				r.op("root", func() {
					x := merkle.Merkleize(archFn, n, lim, leafFn(leaves, true))
					r.bytes("Merkleize", x[:])
				})
				if lim == 0 || i%3 != 0 {
					continue
				}
				for _, ix := range []uint64{0, 1, n / 2, n - 1, n, lim / 2, lim - 1} {
					if ix >= lim {
						continue
					}
					r.op("proof", func() {
						for _, x := range merkle.ConstructProof(archFn, n, lim, leafFn(leaves, false), ix) {
							r.bytes("proof", x[:])
						}
					})
				}
			}
		}})
	}
	// bit fields
	us = append(us, archUnit{"bits", func(c *rt.Ctx, r *rec) {
		chk := func(b []byte) {
			if !c.First(b) {
				return
			}
			r.start(func() string { return "bytes " + hexs(b) })
			r.op("bits", func() {
				if len(b) == 0 || b[len(b)-1] != 0 {
					r.num("BitlistLen", bitfields.BitlistLen(b))
				}
				r.verdict("IsZeroBitlist", map[bool]error{false: errEOF}[bitfields.IsZeroBitlist(b)])
				n := uint64(len(b)) * 8
				for _, l := range []uint64{0, 1, 7, 8, 9, n - 9, n - 8, n - 7, n - 1, n, n + 1, 1 << 31, 1 << 32, 1<<32 + n, 1 << 63, ^uint64(0)} {
					r.verdict("BitlistCheck", bitfields.BitlistCheck(b, l))
					r.verdict("BitvectorCheck", bitfields.BitvectorCheck(b, l))
				}
				for i := uint64(0); i < n && i < 80; i++ {
					r.verdict("GetBit", map[bool]error{false: errEOF}[bitfields.GetBit(b, i)])
				}
			})
		}
		for x := 0; x < 256; x++ {
			chk([]byte{byte(x)})
			chk([]byte{0, byte(x)})
		}
		for n := 0; n < 40; n++ {
			for k := 0; k < n; k++ {
				for _, y := range []byte{1, 2, 0x80} {
					b := make([]byte, n)
					b[n-1] = 1
					b[k] = y
					chk(b)
				}
			}
		}
	}})
	return us
}

func archMain(args []string) {
	if len(args) < 3 {
		fmt.Fprintln(os.Stderr, "-arch quick|thorough FROM TO [list|show N]")
		os.Exit(3)
	}
	debug.SetGCPercent(400)
	quick := args[0] == "quick"
	us := archUnits(quick)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	c := rt.Local(quick)
	w := bufio.NewWriterSize(os.Stdout, 1<<12)
	r := &rec{w: w}
	if len(args) > 3 {
		if args[3] == "list" {
			r.list = true
		} else {
			r.show, _ = strconv.ParseUint(args[3], 10, 64)
		}
	}
	if to < 0 {
		fmt.Printf("units %d\n", len(us))
		return
	}
	for i := from; i < to && i < len(us); i++ {
		c.Fresh()
		t0 := time.Now()
		r.h, r.n = 14695981039346656037, 0
		how := "ok"
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(memoryFault); ok {
						how = "crash"
						return
					}
					if _, ok := e.(rt.SkipUnit); ok {
						return
					}
					how = "panic"
				}
			}()
			us[i].Run(c, r)
		}()
		r.end()
		fmt.Fprintf(w, "unit %d %s %d %016x\n", i, how, r.n, r.h)
		w.Flush()
		if os.Getenv("MC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%8.1f ms %7d cases %s\n", float64(time.Since(t0).Microseconds())/1e3, r.n, us[i].Name)
		}
	}
}
