package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/pretty"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// Go types that get custom definitions. Their values are the numbers 0..3.
type (
	CFix struct { // fixed size, memory size differs from the encoded size
		X uint64
		S string
	}
	CStr string         // unsupported kind, variable size
	CMap map[int]int    // unsupported pointer-shaped kind, variable size
	CU16 uint16         // a basic kind with another encoding
	CInt int            // unsupported kind, fixed size
	CSl  []byte         // slice without limit, variable size
	CArr [5]interface{} // unsupported array, fixed size
	CPt  *CInt          // a pointer type of its own
	CHex [4]byte        // would be a byte vector, fixed size of twice the memory
	CW3  [3]uint16      // would be a basic vector, variable size
	CBl  []byte         // would be a bitlist, fixed size
	CVs  [2]L5          // would be a vector of variable-size elements, fixed size
	CLs  []uint64       // would be a basic list, variable size with other encodings
)

func (*CBl) Limit() uint64  { return 20 }
func (*CBl) BitLen() uint64 { return 4 }
func (*CLs) Limit() uint64  { return 3 }

type customDef struct {
	name     string
	fixed    bool
	encs     [4][]byte
	get      func(p unsafe.Pointer) int
	set      func(p unsafe.Pointer, u int)
	fuzzNeed int
}

func (d *customDef) ser(u int) []byte { return d.encs[u] }

// what the library did with the custom definitions during the current operation
type customLog struct {
	decFuzz, decPlain, dry, enc, size, htr, pretty int
	problem                                        string
}

var clog customLog

// customSSZ implements the library's definition interface.
type customSSZ struct{ d *customDef }

func (c customSSZ) FuzzMinLen() uint64 { return uint64(c.d.fuzzNeed) }
func (c customSSZ) FuzzMaxLen() uint64 { return uint64(c.d.fuzzNeed) }
func (c customSSZ) MinLen() uint64 {
	m := len(c.d.encs[0])
	for _, e := range c.d.encs {
		m = min(m, len(e))
	}
	return uint64(m)
}
func (c customSSZ) MaxLen() uint64 {
	m := 0
	for _, e := range c.d.encs {
		m = max(m, len(e))
	}
	return uint64(m)
}
func (c customSSZ) FixedLen() uint64 {
	if c.d.fixed {
		return c.MinLen()
	}
	return 0
}
func (c customSSZ) IsFixed() bool { return c.d.fixed }
func (c customSSZ) find(b []byte) (int, error) {
	for u, e := range c.d.encs {
		if bytes.Equal(e, b) {
			return u, nil
		}
	}
	return 0, errors.New("custom: no such encoding")
}
func (c customSSZ) read(dr *dec.DecodingReader) (int, error) {
	n := dr.GetBytesSpan()
	if c.d.fixed {
		n = c.FixedLen()
	} else if n > 64 {
		return 0, errors.New("custom: too long")
	}
	b := make([]byte, n)
	if _, err := dr.Read(b); err != nil {
		return 0, err
	}
	return c.find(b)
}
func (c customSSZ) DryCheck(dr *dec.DecodingReader) error {
	clog.dry++
	_, err := c.read(dr)
	return err
}
func (c customSSZ) SizeOf(p unsafe.Pointer) uint64 {
	clog.size++
	return uint64(len(c.d.encs[c.d.get(p)]))
}
func (c customSSZ) Encode(eb *enc.EncodingWriter, p unsafe.Pointer) error {
	clog.enc++
	return eb.Write(c.d.encs[c.d.get(p)])
}
func (c customSSZ) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	if dr.IsFuzzMode() {
		clog.decFuzz++
		if dr.GetBytesSpan() < uint64(c.d.fuzzNeed) {
			clog.problem = fmt.Sprintf("custom definition %s got %d bytes in fuzz mode, declared it needs %d", c.d.name, dr.GetBytesSpan(), c.d.fuzzNeed)
		}
		b := make([]byte, c.d.fuzzNeed)
		if _, err := dr.Read(b); err != nil {
			return err
		}
		c.d.set(p, int(b[0]&3))
		return nil
	}
	clog.decPlain++
	u, err := c.read(dr)
	if err != nil {
		return err
	}
	c.d.set(p, u)
	return nil
}
func (c customSSZ) HashTreeRoot(h htr.MerkleFn, p unsafe.Pointer) [32]byte {
	clog.htr++
	a, b := c.rootParts(c.d.get(p))
	return h.Combi(a, b)
}
func (c customSSZ) rootParts(u int) (a, b [32]byte) {
	copy(a[:], "custom "+c.d.name)
	copy(b[:], c.d.encs[u])
	b[31] = byte(u) + 1
	return
}
func (c customSSZ) text(u int) string { return fmt.Sprintf("<%s#%d>", c.d.name, u) }
func (c customSSZ) Pretty(indent uint32, w *pretty.PrettyWriter, p unsafe.Pointer) {
	clog.pretty++
	w.WriteIndent(indent)
	w.Write(c.text(c.d.get(p)))
}

// schema is the reference side of the same definition.
func (c customSSZ) schema(t reflect.Type) *model.Schema {
	return &model.Schema{Kind: model.KCustom, Typ: t, C: &model.Custom{
		Fixed: c.d.fixed, FixedLen: c.FixedLen(), Min: c.MinLen(), Max: c.MaxLen(),
		Ser: func(v *model.Val) []byte { return c.d.encs[v.U] },
		Deser: func(b []byte) (*model.Val, bool) {
			u, err := c.find(b)
			return &model.Val{U: uint64(u)}, err == nil
		},
		HTR: func(h model.Hash, v *model.Val) [32]byte {
			a, b := c.rootParts(int(v.U))
			return h(append(a[:], b[:]...))
		},
		ToGo: func(v *model.Val, rv reflect.Value) { c.d.set(rv.Addr().UnsafePointer(), int(v.U)) },
		FromGo: func(rv reflect.Value) (*model.Val, error) {
			if !rv.CanAddr() {
				n := reflect.New(rv.Type()).Elem()
				n.Set(rv)
				rv = n
			}
			return &model.Val{U: uint64(c.d.get(rv.Addr().UnsafePointer()))}, nil
		},
	}}
}

func bs(s ...string) (o [4][]byte) {
	for i, x := range s {
		o[i] = []byte(x)
	}
	return
}

var customDefs = map[reflect.Type]customSSZ{
	reflect.TypeFor[CFix](): {&customDef{name: "fix", fixed: true, encs: bs("\xf0\x00Z", "\xf1\x07Z", "\xf2\x0eZ", "\xf3\x15Z"), fuzzNeed: 3,
		get: func(p unsafe.Pointer) int { return int((*CFix)(p).X) }, set: func(p unsafe.Pointer, u int) { *(*CFix)(p) = CFix{uint64(u), fmt.Sprint("s", u)} }}},
	reflect.TypeFor[CStr](): {&customDef{name: "str", encs: bs("", "x", "yy\x04\x00\x00", "zzzz\x05zzzz"), fuzzNeed: 1,
		get: func(p unsafe.Pointer) int { return len(*(*CStr)(p)) }, set: func(p unsafe.Pointer, u int) { *(*CStr)(p) = CStr(strings.Repeat("c", u)) }}},
	reflect.TypeFor[CMap](): {&customDef{name: "map", encs: bs("\x00\x00", "\x01\x00\x01", "\x02\x00\x00\x00\x02", "\x03\x03\x03\x03\x03\x03"), fuzzNeed: 2,
		get: func(p unsafe.Pointer) int { return len(*(*CMap)(p)) }, set: func(p unsafe.Pointer, u int) {
			m := CMap{}
			for i := 0; i < u; i++ {
				m[i] = i
			}
			*(*CMap)(p) = m
		}}},
	reflect.TypeFor[CU16](): {&customDef{name: "u16", fixed: true, encs: bs("aaaaa", "abbbb", "acccc", "adddd"), fuzzNeed: 5,
		get: func(p unsafe.Pointer) int { return int(*(*CU16)(p)) / 1000 }, set: func(p unsafe.Pointer, u int) { *(*CU16)(p) = CU16(u * 1000) }}},
	reflect.TypeFor[CInt](): {&customDef{name: "int", fixed: true, encs: bs("\x10", "\x20", "\x30", "\x40"), fuzzNeed: 1,
		get: func(p unsafe.Pointer) int { return int(-*(*CInt)(p)) }, set: func(p unsafe.Pointer, u int) { *(*CInt)(p) = CInt(-u) }}},
	reflect.TypeFor[CSl](): {&customDef{name: "sl", encs: bs("\x09", "\x09\x08", "\x09\x08\x07", "\x09\x08\x07\x06"), fuzzNeed: 4,
		get: func(p unsafe.Pointer) int { return len(*(*CSl)(p)) }, set: func(p unsafe.Pointer, u int) { *(*CSl)(p) = make(CSl, u, u+2) }}},
	reflect.TypeFor[CArr](): {&customDef{name: "arr", fixed: true, encs: bs("\x01\x02", "\x01\x03", "\x01\x04", "\x01\x05"), fuzzNeed: 2,
		get: func(p unsafe.Pointer) int { x, _ := (*CArr)(p)[4].(int); return x }, set: func(p unsafe.Pointer, u int) { *(*CArr)(p) = CArr{nil, "a", nil, nil, u} }}},
	reflect.TypeFor[CPt](): {&customDef{name: "pt", fixed: true, encs: bs("\x51\x52\x53\x54", "\x61\x62\x63\x64", "\x71\x72\x73\x74", "\x81\x82\x83\x84"), fuzzNeed: 4,
		get: func(p unsafe.Pointer) int {
			if *(*CPt)(p) == nil {
				return 0
			}
			return int(**(*CPt)(p))
		}, set: func(p unsafe.Pointer, u int) { x := CInt(u); *(*CPt)(p) = &x }}},
	reflect.TypeFor[CHex](): {&customDef{name: "hex", fixed: true, encs: bs("00000000", "00000001", "00000002", "00000003"), fuzzNeed: 8,
		get: func(p unsafe.Pointer) int { return int((*CHex)(p)[3]) }, set: func(p unsafe.Pointer, u int) { *(*CHex)(p) = CHex{3: byte(u)} }}},
	reflect.TypeFor[CW3](): {&customDef{name: "w3", encs: bs("\x01", "", "\x02\x03\x04\x05\x06\x07\x08", "\x04\x00\x00\x00"), fuzzNeed: 3,
		get: func(p unsafe.Pointer) int { return int((*CW3)(p)[2]) }, set: func(p unsafe.Pointer, u int) { *(*CW3)(p) = CW3{2: uint16(u)} }}},
	reflect.TypeFor[CBl](): {&customDef{name: "bl", fixed: true, encs: bs("\x00\x00\x00", "\x00\x00\x01", "\x00\x01\x00", "\x01\x00\x00"), fuzzNeed: 3,
		get: func(p unsafe.Pointer) int { return len(*(*CBl)(p)) }, set: func(p unsafe.Pointer, u int) { *(*CBl)(p) = make(CBl, u) }}},
	reflect.TypeFor[CVs](): {&customDef{name: "vs", fixed: true, encs: bs("\x05", "\x06", "\x07", "\x08"), fuzzNeed: 2,
		get: func(p unsafe.Pointer) int { return len((*CVs)(p)[1]) }, set: func(p unsafe.Pointer, u int) { *(*CVs)(p) = CVs{1: make(L5, u)} }}},
	reflect.TypeFor[CLs](): {&customDef{name: "ls", encs: bs("\x00", "\x01\x01", "\x02\x02\x02\x02\x02\x02\x02\x02\x02", "\x03\x03\x03"), fuzzNeed: 1,
		get: func(p unsafe.Pointer) int { return len(*(*CLs)(p)) }, set: func(p unsafe.Pointer, u int) { *(*CLs)(p) = make(CLs, u) }}},
}

// consultation record
type consulted struct{ lib, ref map[reflect.Type]int }

// memo is a factory that builds the definition of a type once and hands out the same object afterwards.
type memo map[reflect.Type]types.SSZ

func customTyp(c *rt.Ctx, e universe.Entry, m memo) *typ {
	rec := consulted{map[reflect.Type]int{}, map[reflect.Type]int{}}
	c.Case(func() string { return "definition of " + e.Name })
	s, merr := model.FromTypeWith(e.T, func(t reflect.Type) *model.Schema {
		rec.ref[t]++
		if d, ok := customDefs[t]; ok {
			return d.schema(t)
		}
		return nil
	})
	var f types.SSZFactoryFn
	f = func(t reflect.Type) (types.SSZ, error) {
		rec.lib[t]++
		if d, ok := customDefs[t]; ok {
			return d, nil
		}
		if d, ok := m[t]; ok {
			return d, nil
		}
		d, err := types.DefaultSSZFactory(f, t)
		if m != nil && err == nil {
			m[t] = d
		}
		return d, err
	}
	d, err := f(e.T)
	c.State()
	c.Trans(1)
	c.Validated(1)
	if (err == nil) != (merr == nil) {
		c.Fail("definition: %v, reference: %v", err, merr)
	}
	if err != nil {
		return nil
	}
	for t := range rec.ref {
		if m == nil && rec.lib[t] == 0 {
			c.Fail("the factory was not consulted for %v", t)
		}
	}
	return &typ{e, s, d}
}

func customEntries() []universe.Entry {
	var out []universe.Entry
	out = append(out, positions[CFix]("CFix")...)
	out = append(out, positions[CStr]("CStr")...)
	out = append(out, positions[CMap]("CMap")...)
	out = append(out, positions[CInt]("CInt")...)
	out = append(out, positions[CSl]("CSl")...)
	out = append(out, positions[CArr]("CArr")...)
	out = append(out, positions[CPt]("CPt")...)
	for _, e := range positions[CU16]("CU16") {
		// elements of basic kinds are not asked of the factory
		if !strings.Contains(e.Name, "L[CU16") && !strings.Contains(e.Name, "]CU16") {
			out = append(out, e)
		}
	}
	out = append(out, positions[CHex]("CHex")...)
	out = append(out, positions[CW3]("CW3")...)
	out = append(out, positions[CBl]("CBl")...)
	out = append(out, positions[CVs]("CVs")...)
	out = append(out, positions[CLs]("CLs")...)
	// embedded custom definitions are ordinary fields
	out = append(out,
		universe.Entry{Name: "embedded CFix", T: reflect.TypeFor[struct {
			A uint8
			CFix
			B L5
		}]()},
		universe.Entry{Name: "squashed CFix", T: reflect.TypeFor[struct {
			A uint8
			X CFix `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CFix", T: reflect.TypeFor[struct {
			A uint8
			X CFix `ssz:"omit"`
			Y CFix
		}]()},
		universe.Entry{Name: "embedded CStr", T: reflect.TypeFor[struct {
			A uint8
			CStr
			B L5
		}]()},
		universe.Entry{Name: "squashed CStr", T: reflect.TypeFor[struct {
			A uint8
			X CStr `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CStr", T: reflect.TypeFor[struct {
			A uint8
			X CStr `ssz:"omit"`
			Y CStr
		}]()},
		universe.Entry{Name: "embedded CMap", T: reflect.TypeFor[struct {
			A uint8
			CMap
			B L5
		}]()},
		universe.Entry{Name: "squashed CMap", T: reflect.TypeFor[struct {
			A uint8
			X CMap `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CMap", T: reflect.TypeFor[struct {
			A uint8
			X CMap `ssz:"omit"`
			Y CMap
		}]()},
		universe.Entry{Name: "embedded CU16", T: reflect.TypeFor[struct {
			A uint8
			CU16
			B L5
		}]()},
		universe.Entry{Name: "squashed CU16", T: reflect.TypeFor[struct {
			A uint8
			X CU16 `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CU16", T: reflect.TypeFor[struct {
			A uint8
			X CU16 `ssz:"omit"`
			Y CU16
		}]()},
		universe.Entry{Name: "embedded CInt", T: reflect.TypeFor[struct {
			A uint8
			CInt
			B L5
		}]()},
		universe.Entry{Name: "squashed CInt", T: reflect.TypeFor[struct {
			A uint8
			X CInt `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CInt", T: reflect.TypeFor[struct {
			A uint8
			X CInt `ssz:"omit"`
			Y CInt
		}]()},
		universe.Entry{Name: "embedded CSl", T: reflect.TypeFor[struct {
			A uint8
			CSl
			B L5
		}]()},
		universe.Entry{Name: "squashed CSl", T: reflect.TypeFor[struct {
			A uint8
			X CSl `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CSl", T: reflect.TypeFor[struct {
			A uint8
			X CSl `ssz:"omit"`
			Y CSl
		}]()},
		universe.Entry{Name: "embedded CArr", T: reflect.TypeFor[struct {
			A uint8
			CArr
			B L5
		}]()},
		universe.Entry{Name: "squashed CArr", T: reflect.TypeFor[struct {
			A uint8
			X CArr `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CArr", T: reflect.TypeFor[struct {
			A uint8
			X CArr `ssz:"omit"`
			Y CArr
		}]()},
		universe.Entry{Name: "embedded CHex", T: reflect.TypeFor[struct {
			A uint8
			CHex
			B L5
		}]()},
		universe.Entry{Name: "squashed CHex", T: reflect.TypeFor[struct {
			A uint8
			X CHex `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CHex", T: reflect.TypeFor[struct {
			A uint8
			X CHex `ssz:"omit"`
			Y CHex
		}]()},
		universe.Entry{Name: "embedded CW3", T: reflect.TypeFor[struct {
			A uint8
			CW3
			B L5
		}]()},
		universe.Entry{Name: "squashed CW3", T: reflect.TypeFor[struct {
			A uint8
			X CW3 `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CW3", T: reflect.TypeFor[struct {
			A uint8
			X CW3 `ssz:"omit"`
			Y CW3
		}]()},
		universe.Entry{Name: "embedded CBl", T: reflect.TypeFor[struct {
			A uint8
			CBl
			B L5
		}]()},
		universe.Entry{Name: "squashed CBl", T: reflect.TypeFor[struct {
			A uint8
			X CBl `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CBl", T: reflect.TypeFor[struct {
			A uint8
			X CBl `ssz:"omit"`
			Y CBl
		}]()},
		universe.Entry{Name: "embedded CVs", T: reflect.TypeFor[struct {
			A uint8
			CVs
			B L5
		}]()},
		universe.Entry{Name: "squashed CVs", T: reflect.TypeFor[struct {
			A uint8
			X CVs `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CVs", T: reflect.TypeFor[struct {
			A uint8
			X CVs `ssz:"omit"`
			Y CVs
		}]()},
		universe.Entry{Name: "embedded CLs", T: reflect.TypeFor[struct {
			A uint8
			CLs
			B L5
		}]()},
		universe.Entry{Name: "squashed CLs", T: reflect.TypeFor[struct {
			A uint8
			X CLs `ssz:"squash"`
		}]()},
		universe.Entry{Name: "omitted CLs", T: reflect.TypeFor[struct {
			A uint8
			X CLs `ssz:"omit"`
			Y CLs
		}]()},
	)
	return out
}

var c24 = &rt.Check{
	ID: "C24", Level: "model_checking",
	Rule:        "13 custom definitions (fixed and variable size, over supported and unsupported Go kinds, memory size different from encoded size) at 33 static positions and two more levels of wrapping (pointer, array, struct, squash, embed, omit), and in lists of 15 to 4097 (65537) elements; the factory builds definitions anew or hands out the same definition objects again; the types asked of the factory are recorded and compared with the reference walk; every operation on all values of the bound, all truncations and faults, and fuzz inputs, compared with the reference model using the same custom definitions; state = distinct (type, value or input)",
	Assumptions: []string{"elements of basic kinds are not asked of the factory (documented series optimization)"},
	Units: func(quick bool) []rt.Unit {
		b := model.SmallBound()
		us := append(customMany(quick), squashUnits(quick)...)
		for _, e := range customEntries() {
			us = append(us, rt.Unit{Name: e.Name, Run: func(c *rt.Ctx) {
				shared := memo{}
				var first []*typ
				run := func(e universe.Entry) {
					if t := customTyp(c, e, nil); t != nil {
						customOps(c, t, &b, quick)
					}
					if t := customTyp(c, e, shared); t != nil {
						customOps(c, t, &b, quick)
						if len(first) < 8 {
							first = append(first, t)
						}
					}
				}
				run(e)
				for _, w := range reflWraps(e) {
					run(w)
					for k, w2 := range reflWraps(w) {
						if !quick || k < 4 {
							run(w2)
						}
					}
				}
				// definitions built first, after their parts went into many others
				for _, t := range first {
					customOps(c, t, &b, quick)
				}
			}})
		}
		return us
	},
}

func customCount(s *model.Schema, v *model.Val) int {
	n := 0
	switch s.Kind {
	case model.KCustom:
		return 1
	case model.KPtr:
		return customCount(s.Elem, v)
	case model.KVec, model.KList:
		for _, e := range v.E {
			n += customCount(s.Elem, e)
		}
	case model.KCont:
		for i, e := range v.E {
			n += customCount(s.Fields[i].S, e)
		}
	}
	return n
}

// customValue checks all operations on one value; false when it cannot be decoded.
func customValue(c *rt.Ctx, t *typ, v *model.Val, ser []byte) bool {
	d := t.D
	c.State()
	c.Case(func() string { return t.Name + ": value " + clip(v.String(), 1000) })
	p := model.NewGo(t.S, v)
	n := customCount(t.S, v)
	c.Trans(7)
	c.Validated(7)
	clog = customLog{}
	got, cnt, err := encode(t, p)
	if err != nil || !bytes.Equal(got, ser) || cnt != len(ser) {
		c.Fail("encodes to %s (%d, %v), expected %s", hexs(got), cnt, err, hexs(ser))
	}
	if clog.enc != n {
		c.Fail("%d custom encoders called for %d custom parts", clog.enc, n)
	}
	if sz := zssz.SizeOf(p.Interface(), d); sz != uint64(len(ser)) {
		c.Fail("size %d, expected %d", sz, len(ser))
	}
	if got, want := zssz.HashTreeRoot(shaFn, p.Interface(), d), shaModel.HTR(t.S, v); got != want {
		c.Fail("root %x, expected %x", got, want)
	}
	if sd, ok := d.(types.SignedSSZ); ok && t.S.Kind == model.KCont {
		if got, want := zssz.SigningRoot(shaFn, p.Interface(), sd), shaModel.SigningRoot(t.S, v); got != want {
			c.Fail("signing root %x, expected %x", got, want)
		}
	}
	clog = customLog{}
	text := prettyText(t, " ", p)
	if clog.pretty != n || strings.Count(text, "<") != n {
		c.Fail("%d custom printers called for %d custom parts: %q", clog.pretty, n, clip(text, 300))
	}
	if t.S.HasZeroSizeListElem() {
		return false
	}
	clog = customLog{}
	q := fresh(t)
	if err := decodeInto(t, q, ser); err != nil {
		c.Fail("decode of %s: %v", hexs(ser), err)
	}
	if clog.decFuzz != 0 || clog.decPlain != n {
		c.Fail("%d custom decoders called (%d in fuzz mode) for %d custom parts", clog.decPlain, clog.decFuzz, n)
	}
	if got, err := model.FromGo(t.S, q.Elem()); err != nil || !model.Equal(got, v) {
		c.Fail("decoded %s", fromGo(t, q))
	}
	clog = customLog{}
	if err := zssz.DryCheck(bytes.NewReader(ser), uint64(len(ser)), d); err != nil {
		c.Fail("dry check of %s: %v", hexs(ser), err)
	}
	if clog.dry != n || clog.decPlain+clog.decFuzz != 0 {
		c.Fail("%d custom dry checks called for %d custom parts", clog.dry, n)
	}
	return true
}

// customMany: long lists and vectors of custom parts.
func customMany(quick bool) []rt.Unit {
	var us []rt.Unit
	ns := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1024, 1025, 2049, 4097}
	if !quick {
		ns = append(ns, 8193, 16385, 32769, 65537)
	}
	add := func(e universe.Entry, wrap func(v *model.Val) *model.Val) {
		us = append(us, rt.Unit{Name: "many " + e.Name, Run: func(c *rt.Ctx) {
			for _, m := range []memo{nil, {}} {
				t := customTyp(c, e, m)
				if t == nil {
					return
				}
				s := t.S
				for s.Kind != model.KList {
					if s.Kind == model.KCont {
						s = s.Fields[1].S
					} else {
						s = s.Elem
					}
				}
				var parts []*model.Val
				b := model.SmallBound()
				model.Values(s.Elem, &b, func(v *model.Val) bool {
					parts = append(parts, v)
					return len(parts) < 7
				})
				for _, n := range ns {
					v := &model.Val{E: []*model.Val{}}
					for i := 0; i < n; i++ {
						v.E = append(v.E, parts[(i+i/31)%len(parts)])
					}
					for k := 0; k < 2; k++ {
						if k == 1 {
							// only the last is different
							for i := range v.E {
								v.E[i] = parts[0]
							}
							v.E[n-1] = parts[len(parts)-1]
						}
						w := wrap(v)
						ser := model.Ser(t.S, w)
						if !customValue(c, t, w, ser) || n > 1100 {
							continue
						}
						for _, at := range places(len(ser), false) {
							x := append([]byte{}, ser...)
							x[at] ^= 0x21
							for _, x := range [][]byte{x, ser[:at]} {
								_, ok := model.Deser(t.S, x)
								c.State()
								c.Case(func() string { return t.Name + ": input " + hexs(x) })
								c.Trans(2)
								c.Validated(2)
								if err := decodeInto(t, fresh(t), x); (err == nil) != ok {
									c.Fail("decode says %v, reference accepts: %v", err, ok)
								}
								if err := zssz.DryCheck(bytes.NewReader(x), uint64(len(x)), t.D); (err == nil) != ok {
									c.Fail("dry check says %v, reference accepts: %v", err, ok)
								}
							}
						}
					}
				}
			}
		}})
	}
	plain := func(v *model.Val) *model.Val { return v }
	field := func(v *model.Val) *model.Val { return &model.Val{E: []*model.Val{{U: 3}, v, {U: 4}}} }
	many[CFix](add, "CFix", plain, field)
	many[CStr](add, "CStr", plain, field)
	many[CMap](add, "CMap", plain, field)
	many[CSl](add, "CSl", plain, field)
	many[CArr](add, "CArr", plain, field)
	many[CPt](add, "CPt", plain, field)
	many[CHex](add, "CHex", plain, field)
	many[CW3](add, "CW3", plain, field)
	many[CVs](add, "CVs", plain, field)
	many[CLs](add, "CLs", plain, field)
	return us
}

func many[T any](add func(e universe.Entry, wrap func(v *model.Val) *model.Val), name string, plain, field func(v *model.Val) *model.Val) {
	add(universe.Entry{Name: "L[" + name + "]", T: reflect.TypeFor[universe.L[T, universe.N70000]]()}, plain)
	add(universe.Entry{Name: "S3[uint8, L[" + name + "], uint16]", T: reflect.TypeFor[universe.S3[uint8, universe.L[T, universe.N70000], uint16]]()}, field)
	add(universe.Entry{Name: "L[S2[uint8, " + name + "]]", T: reflect.TypeFor[universe.L[universe.S2[uint8, T], universe.N70000]]()}, plain)
}

func customOps(c *rt.Ctx, t *typ, b *model.Bound, quick bool) {
	d := t.D
	c.Case(func() string { return t.Name + ": declared lengths" })
	c.Trans(1)
	c.Validated(1)
	if d.IsFixed() != t.S.Fixed() || d.MinLen() != t.S.MinLen() || d.MaxLen() != t.S.MaxLen().Uint64() || d.IsFixed() && d.FixedLen() != t.S.FixedPart() {
		c.Fail("lengths %v %d..%d fixed part %d, expected %v %d..%s %d", d.IsFixed(), d.MinLen(), d.MaxLen(), d.FixedLen(), t.S.Fixed(), t.S.MinLen(), t.S.MaxLen(), t.S.FixedPart())
	}
	if t.T.Kind() == reflect.Map || t.T.Kind() == reflect.Ptr && t.S.Kind == model.KCustom {
		// pointer-shaped values at the top cannot be passed by pointer to themselves differently; still fine below
		_ = t
	}
	zeroList := t.S.HasZeroSizeListElem()
	inputs := map[string]bool{}
	shapes := 0
	model.Values(t.S, b, func(v *model.Val) bool {
		ser := model.Ser(t.S, v)
		if inputs[string(ser)] {
			return true
		}
		if shapes++; quick && shapes > 60 {
			return false
		}
		inputs[string(ser)] = true
		if !customValue(c, t, v, ser) {
			return true
		}
		// rejected inputs
		if shapes > 12 {
			return true
		}
		try := func(x []byte) {
			_, ok := model.Deser(t.S, x)
			c.State()
			c.Case(func() string { return t.Name + ": input " + hexs(x) })
			c.Trans(2)
			c.Validated(2)
			if err := decodeInto(t, fresh(t), x); (err == nil) != ok {
				c.Fail("decode says %v, reference accepts: %v", err, ok)
			}
			if err := zssz.DryCheck(bytes.NewReader(x), uint64(len(x)), d); (err == nil) != ok {
				c.Fail("dry check says %v, reference accepts: %v", err, ok)
			}
		}
		for k := 0; k < len(ser); k++ {
			try(ser[:k])
			x := append([]byte{}, ser...)
			x[k] ^= 1
			try(x)
			x[k] ^= 0x21
			try(x)
		}
		try(append(ser[:len(ser):len(ser)], 0))
		try(append(ser[:len(ser):len(ser)], 'x'))
		model.Faults(t.S, v, func(f model.Fault) { try(model.SerFault(t.S, v, f)) })
		return true
	})
	if zeroList {
		return
	}
	// fuzz mode
	fm := d.FuzzMinLen()
	if fm > 300 {
		return
	}
	for extra := 0; extra < 24; extra++ {
		for k := 0; k < 3; k++ {
			in := make([]byte, int(fm)+extra)
			for i := range in {
				switch k {
				case 0:
					in[i] = byte(i*7 + extra)
				case 1:
					in[i] = byte(255 - i)
				case 2:
					in[i] = byte(1 + i%3)
				}
			}
			c.State()
			c.Case(func() string { return t.Name + ": fuzz input " + hexs(in) })
			clog = customLog{}
			q := fresh(t)
			used, err := zssz.DecodeFuzzBytes(bytes.NewReader(in), uint64(len(in)), q.Interface(), d)
			c.Trans(2)
			c.Validated(2)
			if err != nil {
				c.Fail("fuzz decoding fails: %v", err)
			}
			v, err := model.FromGo(t.S, q.Elem())
			if err != nil {
				c.Fail("fuzz decoding gives an ill-formed value: %v", err)
			}
			if clog.problem != "" {
				c.Fail("%s", clog.problem)
			}
			if n := customCount(t.S, v); clog.decFuzz != n || clog.decPlain != 0 {
				c.Fail("%d custom decoders called in fuzz mode and %d outside of it, for %d custom parts", clog.decFuzz, clog.decPlain, n)
			}
			if used > uint64(len(in)) || used < fm || used > d.FuzzMaxLen() {
				c.Fail("consumed %d of %d bytes, declared bounds %d..%d", used, len(in), fm, d.FuzzMaxLen())
			}
			ser := model.Ser(t.S, v)
			if got, _, err := encode(t, q); err != nil || !bytes.Equal(got, ser) {
				c.Fail("fuzzed value encodes to %s (%v), expected %s", hexs(got), err, hexs(ser))
			}
			if err := decodeInto(t, fresh(t), ser); err != nil {
				c.Fail("fuzzed value %s does not decode: %v", v, err)
			}
		}
	}
	if fm > 0 {
		in := make([]byte, fm-1)
		c.Case(func() string { return t.Name + ": fuzz input too short" })
		if _, err := zssz.DecodeFuzzBytes(bytes.NewReader(in), uint64(len(in)), fresh(t).Interface(), d); err == nil {
			c.Fail("fuzz decoding of %d bytes succeeds, the declared minimum is %d", len(in), fm)
		}
	}
}

// Custom definitions that offer fields for squashing, hide them, or offer none.
type CIn struct {
	A uint8
	V L5
	C uint16
	D bool
}

type (
	offersFields struct{ *types.SSZContainer }
	hidesFields  struct{ types.SSZ }
	offersNone   struct{ types.SSZ }
)

func (offersNone) SquashFields() []types.ContainerField { return nil }

type (
	sqIn struct {
		X uint8
		I CIn `ssz:"squash"`
		Y L5
	}
	emIn struct {
		X uint8
		CIn
		Y L5
	}
	sqemIn struct {
		X   uint8
		CIn `ssz:"squash"`
		Y   L5
	}
	plIn struct {
		X uint8
		I CIn
		Y L5
	}
	omIn struct {
		X uint8
		I CIn `ssz:"omit"`
		Y L5
	}
	sqsqIn struct {
		Z uint16
		S sqIn `ssz:"squash"`
	}
	sqplIn struct {
		Z uint16
		S plIn `ssz:"squash"`
	}
	sqomIn struct {
		Z uint16
		S omIn `ssz:"squash"`
	}
)

func squashUnits(quick bool) []rt.Unit {
	in := reflect.TypeFor[CIn]()
	wrap := map[string]func(d types.SSZ) types.SSZ{
		"offers its fields": func(d types.SSZ) types.SSZ {
			if k, ok := d.(*types.SSZContainer); ok {
				return offersFields{k}
			}
			return d
		},
		"hides its fields": func(d types.SSZ) types.SSZ { return hidesFields{d} },
		"offers no fields": func(d types.SSZ) types.SSZ { return offersNone{d} },
	}
	sq, em, sqem, pl, om := reflect.TypeFor[sqIn](), reflect.TypeFor[emIn](), reflect.TypeFor[sqemIn](), reflect.TypeFor[plIn](), reflect.TypeFor[omIn]()
	sqsq, sqpl, sqom := reflect.TypeFor[sqsqIn](), reflect.TypeFor[sqplIn](), reflect.TypeFor[sqomIn]()
	var us []rt.Unit
	for _, k := range []struct {
		how string
		t   reflect.Type
		eq  reflect.Type // a type of the same layout with the expected definition, nil: refused
	}{
		{"offers its fields", in, in}, {"offers its fields", sq, sq}, {"offers its fields", em, em}, {"offers its fields", sqem, sqem}, {"offers its fields", pl, pl}, {"offers its fields", om, om}, {"offers its fields", sqsq, sqsq}, {"offers its fields", sqpl, sqpl},
		{"hides its fields", in, in}, {"hides its fields", sq, nil}, {"hides its fields", em, pl}, {"hides its fields", sqem, nil}, {"hides its fields", pl, pl}, {"hides its fields", om, om}, {"hides its fields", sqsq, nil}, {"hides its fields", sqpl, sqpl},
		{"offers no fields", in, in}, {"offers no fields", sq, om}, {"offers no fields", em, om}, {"offers no fields", sqem, om}, {"offers no fields", pl, pl}, {"offers no fields", om, om}, {"offers no fields", sqsq, sqom},
	} {
		us = append(us, rt.Unit{Name: fmt.Sprintf("%v, where the definition of CIn %s", k.t, k.how), Run: func(c *rt.Ctx) {
			c.State()
			c.Case(func() string { return fmt.Sprintf("definition of %v, where the definition of CIn %s", k.t, k.how) })
			var f types.SSZFactoryFn
			f = func(t reflect.Type) (types.SSZ, error) {
				d, err := types.DefaultSSZFactory(f, t)
				if t == in && err == nil {
					return wrap[k.how](d), nil
				}
				return d, err
			}
			for i, w := range []func(t reflect.Type) reflect.Type{
				func(t reflect.Type) reflect.Type { return t },
				reflect.PointerTo,
				func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) },
				func(t reflect.Type) reflect.Type {
					return reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.TypeFor[uint16]()}, {Name: "Q", Type: t}, {Name: "R", Type: reflect.TypeFor[L5]()}})
				},
				func(t reflect.Type) reflect.Type {
					return reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.TypeFor[uint16]()}, {Name: "Q", Type: t, Tag: `ssz:"squash"`}})
				},
			} {
				if i == 4 && (k.t == in && k.how != "offers its fields") {
					continue // covered by the types above
				}
				d, err := f(w(k.t))
				c.Trans(1)
				c.Validated(1)
				if (err == nil) != (k.eq != nil) {
					c.Fail("wrapping %d: definition: %v", i, err)
				}
				if err != nil {
					continue
				}
				s := model.MustFromType(w(k.eq))
				b := model.SmallBound()
				customOps(c, &typ{universe.Entry{Name: fmt.Sprint(w(k.t)), T: w(k.t)}, s, d}, &b, quick)
			}
		}})
	}
	return us
}
