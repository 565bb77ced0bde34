package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"reflect"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// point is a scheduling point of the harness' own callbacks (hash function, reader, writer).
var point = func() {}

// mixHash is a cheap 64 to 32 byte hash function for executions that are repeated very often.
func mixHash(b []byte) (out [32]byte) {
	point()
	var s [4]uint64
	s[0], s[1], s[2], s[3] = 0x9e3779b97f4a7c15, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, uint64(len(b))
	for i := 0; i+8 <= len(b); i += 8 {
		k := i / 8 % 4
		s[k] = bits.RotateLeft64((s[k]^binary.LittleEndian.Uint64(b[i:]))*0xff51afd7ed558ccd, 29) + s[(k+1)%4]
	}
	for r := 0; r < 3; r++ {
		for k := range s {
			s[k] = bits.RotateLeft64((s[k]^s[(k+3)%4]>>7)*0xc4ceb9fe1a85ec53, 31) + s[(k+1)%4]
		}
	}
	for k := range s {
		binary.LittleEndian.PutUint64(out[8*k:], s[k])
	}
	point()
	return
}

var mixFn = htr.HashFn(mixHash)
var mixModel = model.NewMerkler(mixHash)

type pointReader struct {
	r io.Reader
}

func (p pointReader) Read(b []byte) (int, error) {
	point()
	n, err := p.r.Read(b)
	point()
	return n, err
}

type pointWriter struct{ b bytes.Buffer }

func (p *pointWriter) Write(b []byte) (int, error) {
	point()
	n, err := p.b.Write(b)
	point()
	return n, err
}

// cop is an operation to run concurrently with others on a shared definition.
type cop struct {
	name string
	run  func(d types.SSZ) func() string // prepares the call (fresh destination); the returned part runs concurrently ...
	fin  bool
	want string
}

// longOps > 0: the values of opValues have lists of that many elements.
var longOps int

// opValues: three values to run operations on, a large, a middle and a small one.
func opValues(t *typ) [3]*model.Val {
	if longOps > 0 {
		n := uint64(longOps)
		v := [3]*model.Val{lenVals(t.S, n)[1], lenVals(t.S, n/2+1)[1], lenVals(t.S, n/16)[1]}
		for i := range v {
			v[i] = model.Filled(t.S, v[i], []model.Fill{model.FillCount, model.FillOnes, model.FillCount}[i])
		}
		return v
	}
	sb := model.SmallBound()
	shapes := model.Shapes(t.S, &sb, 0)
	return [3]*model.Val{
		model.Filled(t.S, shapes[len(shapes)-1], model.FillCount),
		model.Filled(t.S, shapes[len(shapes)/2], model.FillOnes),
		model.Filled(t.S, shapes[min(1, len(shapes)-1)], model.FillCount),
	}
}

// withLong runs f for long lists of every kind of element.
func withLong(ns []int, f func(c *rt.Ctx, t *typ)) []rt.Unit {
	var us []rt.Unit
	for _, n := range ns {
		for _, e := range universe.Dynamic {
			us = append(us, rt.Unit{Name: fmt.Sprintf("%s with %d elements", e.Name, n), Run: func(c *rt.Ctx) {
				universe.DynLimit = longLimit
				longOps = n
				defer func() { longOps = 0 }()
				f(c, build(c, e))
			}})
		}
	}
	return us
}

// concOps: operations on shared values (p1, p2), with results from the reference model where it gives one.
func concOps(t *typ) (ops []cop, vals []reflect.Value) {
	three := opValues(t)
	v1, v2 := three[0], three[1]
	p1, s1 := model.NewGo(t.S, v1), model.Ser(t.S, v1)
	p2, s2 := model.NewGo(t.S, v2), model.Ser(t.S, v2)
	vals = []reflect.Value{p1, p2}
	add := func(name, want string, run func(d types.SSZ) func() string) {
		ops = append(ops, cop{name: name, want: want, run: run})
	}
	simple := func(f func(d types.SSZ) string) func(d types.SSZ) func() string {
		return func(d types.SSZ) func() string { return func() string { return f(d) } }
	}
	enc := func(p reflect.Value) func(d types.SSZ) func() string {
		return func(d types.SSZ) func() string {
			w := &pointWriter{}
			return func() string {
				n, err := zssz.Encode(w, p.Interface(), d)
				return fmt.Sprintf("%x %d %s", w.b.Bytes(), n, verdict(err))
			}
		}
	}
	dec := func(in []byte) func(d types.SSZ) func() string {
		return func(d types.SSZ) func() string {
			p := fresh(t)
			r := pointReader{bytes.NewReader(in)}
			return func() string {
				if err := zssz.Decode(r, uint64(len(in)), p.Interface(), d); err != nil {
					return "error"
				}
				return fmt.Sprintf("%x", valueBytes(t, p))
			}
		}
	}
	hash := func(p reflect.Value) func(d types.SSZ) func() string {
		return simple(func(d types.SSZ) string { return fmt.Sprintf("%x", zssz.HashTreeRoot(mixFn, p.Interface(), d)) })
	}
	add("Encode v1", fmt.Sprintf("%x %d ok", s1, len(s1)), enc(p1))
	add("Decode v1", fmt.Sprintf("%x", s1), dec(s1))
	add("HashTreeRoot v1", fmt.Sprintf("%x", mixModel.HTR(t.S, v1)), hash(p1))
	if string(s1) != string(s2) {
		add("Encode v2", fmt.Sprintf("%x %d ok", s2, len(s2)), enc(p2))
		add("Decode v2", fmt.Sprintf("%x", s2), dec(s2))
		add("HashTreeRoot v2", fmt.Sprintf("%x", mixModel.HTR(t.S, v2)), hash(p2))
	}
	add("DryCheck v1", "ok", simple(func(d types.SSZ) string {
		return verdict(zssz.DryCheck(pointReader{bytes.NewReader(s1)}, uint64(len(s1)), d))
	}))
	bad := append(append([]byte{}, s1...), 0)
	if _, ok := model.Deser(t.S, bad); !ok {
		add("Decode invalid", "error", dec(bad))
	}
	add("SizeOf v1", fmt.Sprint(len(s1)), simple(func(d types.SSZ) string { return fmt.Sprint(zssz.SizeOf(p1.Interface(), d)) }))
	if t.S.Kind == model.KCont {
		add("SigningRoot v1", fmt.Sprintf("%x", mixModel.SigningRoot(t.S, v1)), simple(func(d types.SSZ) string {
			return fmt.Sprintf("%x", zssz.SigningRoot(mixFn, p1.Interface(), d.(types.SignedSSZ)))
		}))
	}
	if longOps < 100 {
		add("Pretty v1", "", simple(func(d types.SSZ) string {
			w := &pointWriter{}
			zssz.Pretty(w, " ", p1.Interface(), d)
			return w.b.String()
		}))
	}
	if fuzzInDomain(t) && t.D.FuzzMinLen() < 500 {
		f := pattern(int(t.D.FuzzMinLen()) + 21)
		if longOps > 0 {
			f = make([]byte, int(t.D.FuzzMinLen())+9*longOps)
			copy(f[:len(f)-5*longOps], pattern(len(f)))
			binary.LittleEndian.PutUint64(f, uint64(len(f)*8/9))
		}
		add("DecodeFuzzBytes", "", func(d types.SSZ) func() string {
			p := fresh(t)
			return func() string {
				n, err := zssz.DecodeFuzzBytes(pointReader{bytes.NewReader(f)}, uint64(len(f)), p.Interface(), d)
				if err != nil {
					return "error"
				}
				return fmt.Sprintf("%d %x", n, valueBytes(t, p))
			}
		})
	}
	add("build definition", fmt.Sprintf("%x %d ok %v", s2, len(s2), t.D.IsFixed()), simple(func(types.SSZ) string {
		d := zssz.GetSSZ(reflect.Zero(reflect.PointerTo(t.T)).Interface())
		w := &pointWriter{}
		n, err := zssz.Encode(w, p2.Interface(), d)
		return fmt.Sprintf("%x %d %s %v", w.b.Bytes(), n, verdict(err), d.IsFixed())
	}))
	for i := range ops {
		got := ops[i].run(t.D)()
		if ops[i].want == "" {
			ops[i].want = got
		}
	}
	return
}

func concTypes(quick bool) []universe.Entry {
	es := append([]universe.Entry{}, universe.FieldPool...)
	es = append(es, universe.Containers(universe.Rep, 2)...)
	es = append(es, universe.Level3...)
	es = append(append(es, universe.Wide()[40:44]...), universe.Tall()[4:10]...)
	if !quick {
		es = append(append(append(es, universe.All(4)...), universe.Wide()...), universe.Tall()...)
	}
	return dedup(es)
}
