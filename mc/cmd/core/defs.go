package main

import (
	"bytes"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// positions puts T at every static position that needs a declared (list) type.
func positions[T any](name string) []universe.Entry {
	e := func(f string, t reflect.Type) universe.Entry { return universe.Entry{Name: fmt.Sprintf(f, name), T: t} }
	return append(blanks[T](name), []universe.Entry{
		e("%s", reflect.TypeFor[T]()),
		e("*%s", reflect.TypeFor[*T]()),
		e("**%s", reflect.TypeFor[**T]()),
		e("[0]%s", reflect.TypeFor[[0]T]()),
		e("[1]%s", reflect.TypeFor[[1]T]()),
		e("[3]%s", reflect.TypeFor[[3]T]()),
		e("[2]*%s", reflect.TypeFor[[2]*T]()),
		e("[2][2]%s", reflect.TypeFor[[2][2]T]()),
		e("L[%s,3]", reflect.TypeFor[universe.L[T, universe.N3]]()),
		e("L[*%s,3]", reflect.TypeFor[universe.L[*T, universe.N3]]()),
		e("L[[2]%s,2]", reflect.TypeFor[universe.L[[2]T, universe.N2]]()),
		e("L[L[%s,2],2]", reflect.TypeFor[universe.L[universe.L[T, universe.N2], universe.N2]]()),
		e("L[S1[%s],3]", reflect.TypeFor[universe.L[universe.S1[T], universe.N3]]()),
		e("L[S2[u8,%s],3]", reflect.TypeFor[universe.L[universe.S2[uint8, T], universe.N3]]()),
		e("[2]L[%s,2]", reflect.TypeFor[[2]universe.L[T, universe.N2]]()),
		e("S1[%s]", reflect.TypeFor[universe.S1[T]]()),
		e("S3[u8,%s,u16]", reflect.TypeFor[universe.S3[uint8, T, uint16]]()),
		e("S2[L[byte,5],%s]", reflect.TypeFor[universe.S2[universe.L[byte, universe.N5], T]]()),
		e("S2[%s,%[1]s]", reflect.TypeFor[universe.S2[T, T]]()),
		e("S1[S1[*%s]]", reflect.TypeFor[universe.S1[universe.S1[*T]]]()),
		e("S1[L[%s,3]]", reflect.TypeFor[universe.S1[universe.L[T, universe.N3]]]()),
		e("*S1[%s]", reflect.TypeFor[*universe.S1[T]]()),
		e("squash(%s)", reflect.TypeFor[sqT[T]]()),
		e("embed(%s)", reflect.TypeFor[embT[T]]()),
		e("[]%s", reflect.TypeFor[[]T]()),
		e("S1[[]%s]", reflect.TypeFor[universe.S1[[]T]]()),
	}...)
}

type sqT[T any] struct {
	Aa uint8
	In struct {
		Bb uint16
		Cc T
	} `ssz:"squash"`
	Dd T
}

type embInner[T any] struct {
	Ee uint8
	Ff T
}

type embT[T any] struct {
	embInner[T]
	Gg L5
}

type L5 = universe.L[byte, universe.N5]

// reflWraps: further positions by reflection.
func reflWraps(e universe.Entry) []universe.Entry {
	tag := func(name, tag string) universe.Entry {
		return universe.Entry{Name: name + "(" + e.Name + ")", T: reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeFor[uint16]()},
			{Name: "B", Type: e.T, Tag: reflect.StructTag(tag)},
			{Name: "C", Type: reflect.TypeFor[L5]()},
		})}
	}
	return []universe.Entry{
		{Name: "*" + e.Name, T: reflect.PointerTo(e.T)},
		{Name: "[2]" + e.Name, T: reflect.ArrayOf(2, e.T)},
		{Name: "[0]" + e.Name, T: reflect.ArrayOf(0, e.T)},
		universe.StructOf(universe.Entry{Name: "u8", T: reflect.TypeFor[uint8]()}, e),
		tag("omit", `ssz:"omit"`),
		tag("foo,omit", `json:"a" ssz:"foo,omit"`),
		tag("omitted", `ssz:"omitted"`),
		tag("json omit", `json:"omit"`),
		tag("squash", `ssz:"squash"`),
		tag("foo", `ssz:"foo"`),
	}
}

// ---- the pool of component types

type (
	nU8    uint8
	nBool  bool
	nU64   uint64
	nStruc struct{ A nU64 }
	noLim  universe.L[uint16, universe.N3] // loses the methods
	limInt []uint16                        // Limit of the wrong type
	limArg []uint16
	bitNoL []byte // BitLen but no Limit
	bvOK   [2]byte
	bvLong [2]byte
	bvShrt [2]byte
	bvZero [1]byte
	bvNone [0]byte
	bvNo   [0]byte
	bvWrap [0]byte // bit length near 2^64
	bv8    [1]byte
	bv9    [1]byte
	bvMeth [2]byte // BitLen of the wrong type
	bvNam  [2]nU8
	bl5    []byte
	blNam  []nU8
	bv16x  [2]uint16 // BitLen on a non-byte array
	blU16  []uint16  // BitLen and Limit on non-bytes: a list of uint16
	limZro []uint32
	lStr   []string
	lIface []interface{}
	lPtr   []*uint64
	lSlice [][]byte // unlimited inner lists
	lMap   []map[int]int
	lNU64  []nU64
	lNBool []nBool
	lStruc []nStruc
)

func (*limInt) Limit() int         { return 3 }
func (*limArg) Limit(x int) uint64 { return 3 }
func (*bitNoL) BitLen() uint64     { return 3 }
func (*bvOK) BitLen() uint64       { return 9 }
func (*bvLong) BitLen() uint64     { return 17 }
func (*bvShrt) BitLen() uint64     { return 8 }
func (*bvZero) BitLen() uint64     { return 0 }
func (*bvNone) BitLen() uint64     { return 0 }
func (*bvNo) BitLen() uint64       { return 1 }
func (*bvWrap) BitLen() uint64     { return ^uint64(0) - 3 }
func (*bv8) BitLen() uint64        { return 8 }
func (*bv9) BitLen() uint64        { return 9 }
func (*bvMeth) BitLen() int        { return 9 }
func (*bvNam) BitLen() uint64      { return 16 }
func (*bl5) BitLen() uint64        { return 0 }
func (*bl5) Limit() uint64         { return 5 }
func (*blNam) BitLen() uint64      { return 0 }
func (*blNam) Limit() uint64       { return 11 }
func (*bv16x) BitLen() uint64      { return 16 }
func (*blU16) BitLen() uint64      { return 16 }
func (*blU16) Limit() uint64       { return 4 }
func (*limZro) Limit() uint64      { return 0 }
func (*lStr) Limit() uint64        { return 4 }
func (*lIface) Limit() uint64      { return 4 }
func (*lPtr) Limit() uint64        { return 4 }
func (*lSlice) Limit() uint64      { return 4 }
func (*lMap) Limit() uint64        { return 4 }
func (*lNU64) Limit() uint64       { return 4 }
func (*lNBool) Limit() uint64      { return 4 }
func (*lStruc) Limit() uint64      { return 4 }

// limits and bit lengths declared on the type itself, not on a pointer to it
type (
	vLim  []uint16
	vByt  []byte
	vBit  []byte
	vMix1 []byte
	vMix2 []byte
	vVec  [2]byte
	vVecX [2]byte
	vStr  []universe.S1[uint8]
	vBad  []string
)

func (vLim) Limit() uint64    { return 3 }
func (vByt) Limit() uint64    { return 5 }
func (vBit) Limit() uint64    { return 11 }
func (vBit) BitLen() uint64   { return 0 }
func (vMix1) Limit() uint64   { return 9 }
func (*vMix1) BitLen() uint64 { return 0 }
func (*vMix2) Limit() uint64  { return 7 }
func (vMix2) BitLen() uint64  { return 0 }
func (vVec) BitLen() uint64   { return 13 }
func (vVecX) BitLen() uint64  { return 17 }
func (vStr) Limit() uint64    { return 3 }
func (vBad) Limit() uint64    { return 3 }

// types that contain themselves: no SSZ type does
type (
	rPtr  struct{ Next *rPtr }
	rList []rList
	rBoth []struct{ In rBoth }
	rArr  struct{ A [2]*rArr }
	rSelf *rSelf
	rNo   []rNo // and no limit
	rMutA struct{ B *rMutB }
	rMutB struct {
		A universe.L[rMutA, universe.N3]
	}
	rEmb  struct{ *rEmb }
	rDeep struct {
		X struct {
			Y *[2]struct {
				Z universe.L[*rDeep, universe.N2]
			}
		}
	}
	rGen  struct{ C universe.S2[uint8, *rGen] }
	rZero struct{ A [0]*rZero }
	rTail struct {
		A uint8
		B uint64
		C universe.L[rTail, universe.N3]
	}
	rSq struct {
		A uint8
		B *rSq `ssz:"squash"`
	}
	rOmit struct { // not recursive in its SSZ form
		A    uint8
		Next *rOmit `ssz:"omit"`
		B    universe.L[byte, universe.N5]
	}
	rOmit2 struct {
		A universe.L[*rOmit3, universe.N3]
	}
	rOmit3 struct {
		B uint16
		A *rOmit2 `ssz:"omit"`
	}
	// the same type many times, but never inside itself
	rLeaf  struct{ A uint16 }
	rTwice struct {
		A rLeaf
		B *rLeaf
		C universe.L[rLeaf, universe.N3]
		D struct{ E, F *rLeaf }
		G [2]rLeaf
	}
)

func (*rList) Limit() uint64 { return 3 }
func (*rBoth) Limit() uint64 { return 3 }

type badTail struct {
	A uint8
	B *uint16
	C universe.L[universe.S1[string], universe.N3]
}

type onlyOmit struct {
	A string      `ssz:"omit"`
	B interface{} `ssz:"omit"`
}

type unexported struct {
	a uint16
	b universe.L[byte, universe.N5]
	c chan int `ssz:"omit"`
}

type unexportedBad struct {
	a uint16
	b chan int
}

type pool struct {
	name string
	es   []universe.Entry
}

func c23pool() []pool {
	p := func(name string, es []universe.Entry) pool { return pool{name, es} }
	return []pool{
		p("bool", positions[bool]("bool")), p("uint8", positions[uint8]("uint8")), p("uint16", positions[uint16]("uint16")),
		p("uint32", positions[uint32]("uint32")), p("uint64", positions[uint64]("uint64")),
		p("int", positions[int]("int")), p("int8", positions[int8]("int8")), p("int16", positions[int16]("int16")), p("int32", positions[int32]("int32")), p("int64", positions[int64]("int64")),
		p("uint", positions[uint]("uint")), p("uintptr", positions[uintptr]("uintptr")), p("float32", positions[float32]("float32")), p("float64", positions[float64]("float64")),
		p("complex64", positions[complex64]("complex64")), p("complex128", positions[complex128]("complex128")), p("string", positions[string]("string")),
		p("chan", positions[chan int]("chan")), p("func", positions[func()]("func")), p("iface", positions[interface{}]("iface")), p("error", positions[error]("error")),
		p("map", positions[map[int]int]("map")), p("unsafe.Pointer", positions[unsafe.Pointer]("unsafe.Pointer")),
		p("[]byte", positions[[]byte]("[]byte")), p("[]uint16", positions[[]uint16]("[]uint16")), p("[]S0", positions[[]universe.S0]("[]S0")),
		p("nU8", positions[nU8]("nU8")), p("nBool", positions[nBool]("nBool")), p("nU64", positions[nU64]("nU64")), p("nStruc", positions[nStruc]("nStruc")),
		p("noLim", positions[noLim]("noLim")), p("limInt", positions[limInt]("limInt")), p("limArg", positions[limArg]("limArg")), p("bitNoL", positions[bitNoL]("bitNoL")),
		p("bvOK", positions[bvOK]("bvOK")), p("bvLong", positions[bvLong]("bvLong")), p("bvShrt", positions[bvShrt]("bvShrt")), p("bvZero", positions[bvZero]("bvZero")),
		p("bvNone", positions[bvNone]("bvNone")), p("bvNo", positions[bvNo]("bvNo")), p("bvWrap", positions[bvWrap]("bvWrap")), p("bv8", positions[bv8]("bv8")), p("bv9", positions[bv9]("bv9")),
		p("bvMeth", positions[bvMeth]("bvMeth")), p("bvNam", positions[bvNam]("bvNam")), p("bl5", positions[bl5]("bl5")), p("blNam", positions[blNam]("blNam")),
		p("bv16x", positions[bv16x]("bv16x")), p("blU16", positions[blU16]("blU16")), p("limZro", positions[limZro]("limZro")),
		p("lStr", positions[lStr]("lStr")), p("lIface", positions[lIface]("lIface")), p("lPtr", positions[lPtr]("lPtr")), p("lSlice", positions[lSlice]("lSlice")), p("lMap", positions[lMap]("lMap")),
		p("lNU64", positions[lNU64]("lNU64")), p("lNBool", positions[lNBool]("lNBool")), p("lStruc", positions[lStruc]("lStruc")),
		p("S0", positions[universe.S0]("S0")), p("badTail", positions[badTail]("badTail")), p("onlyOmit", positions[onlyOmit]("onlyOmit")),
		p("unexported", positions[unexported]("unexported")), p("unexportedBad", positions[unexportedBad]("unexportedBad")),
		p("Deep", positions[universe.Deep]("Deep")), p("L[byte,5]", positions[L5]("L[byte,5]")), p("L[u64,3]", positions[universe.L[uint64, universe.N3]]("L[u64,3]")),
		p("[4]byte", positions[[4]byte]("[4]byte")),
		p("vLim", positions[vLim]("vLim")), p("vByt", positions[vByt]("vByt")), p("vBit", positions[vBit]("vBit")), p("vMix1", positions[vMix1]("vMix1")), p("vMix2", positions[vMix2]("vMix2")), p("vVec", positions[vVec]("vVec")), p("vVecX", positions[vVecX]("vVecX")), p("vStr", positions[vStr]("vStr")), p("vBad", positions[vBad]("vBad")), p("rPtr", positions[rPtr]("rPtr")), p("rList", positions[rList]("rList")), p("rBoth", positions[rBoth]("rBoth")), p("rArr", positions[rArr]("rArr")), p("rSelf", positions[rSelf]("rSelf")), p("rNo", positions[rNo]("rNo")), p("rMutA", positions[rMutA]("rMutA")), p("rMutB", positions[rMutB]("rMutB")), p("rEmb", positions[rEmb]("rEmb")), p("rDeep", positions[rDeep]("rDeep")), p("rGen", positions[rGen]("rGen")), p("rZero", positions[rZero]("rZero")), p("rTail", positions[rTail]("rTail")), p("rSq", positions[rSq]("rSq")), p("rOmit", positions[rOmit]("rOmit")), p("rOmit2", positions[rOmit2]("rOmit2")), p("rTwice", positions[rTwice]("rTwice")),
		p("embeddings", embeddings()),
	}
}

func isNilSSZ(d types.SSZ) bool {
	if d == nil {
		return true
	}
	v := reflect.ValueOf(d)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// tryBuild runs a constructor; a panic is a violation.
func tryBuild(c *rt.Ctx, what string, f func() (types.SSZ, error)) (types.SSZ, error) {
	d, err := f()
	c.Trans(1)
	c.Validated(1)
	if err != nil && !isNilSSZ(d) {
		c.Fail("%s: an error (%v) and a definition", what, err)
	}
	if err == nil && isNilSSZ(d) {
		c.Fail("%s: neither an error nor a definition", what)
	}
	return d, err
}

func limited(t reflect.Type) bool {
	return reflect.PointerTo(t).Implements(reflect.TypeFor[interface{ Limit() uint64 }]())
}

func sizedBits(t reflect.Type) bool {
	return reflect.PointerTo(t).Implements(reflect.TypeFor[interface{ BitLen() uint64 }]())
}

// verdicts
const (
	refuse = iota
	accept
	open // not settled by the property
)

type ctor struct {
	name string
	mk   func(t reflect.Type) (types.SSZ, error)
	want func(t reflect.Type, ok bool) int
}

func basicKind(k reflect.Kind) bool {
	return k == reflect.Bool || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64
}

func supported(t reflect.Type) bool { _, err := model.FromType(t); return err == nil }

func wrapC[T types.SSZ](f func(t reflect.Type) (T, error)) func(t reflect.Type) (types.SSZ, error) {
	return func(t reflect.Type) (types.SSZ, error) {
		d, err := f(t)
		return d, err
	}
}

func wrapF[T types.SSZ](f func(fn types.SSZFactoryFn, t reflect.Type) (T, error)) func(t reflect.Type) (types.SSZ, error) {
	return func(t reflect.Type) (types.SSZ, error) {
		d, err := f(types.SSZFactory, t)
		return d, err
	}
}

var ctors = []ctor{
	{"NewSSZPtr", wrapF(types.NewSSZPtr), func(t reflect.Type, ok bool) int {
		if t.Kind() == reflect.Ptr && ok {
			return accept
		}
		return refuse
	}},
	{"NewSSZContainer", wrapF(types.NewSSZContainer), func(t reflect.Type, ok bool) int {
		if t.Kind() == reflect.Struct && ok {
			return accept
		}
		return refuse
	}},
	{"NewSSZList", wrapF(types.NewSSZList), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Slice || !limited(t) || !supported(t.Elem()) {
			return refuse
		}
		if basicKind(t.Elem().Kind()) || t.Elem().Kind() == reflect.Uint8 {
			return open
		}
		return accept
	}},
	{"NewSSZVector", wrapF(types.NewSSZVector), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Array || !supported(t.Elem()) {
			return refuse
		}
		if basicKind(t.Elem().Kind()) || t.Elem().Kind() == reflect.Uint8 {
			return open
		}
		return accept
	}},
	{"NewSSZBasicList", wrapC(types.NewSSZBasicList), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Slice || !limited(t) {
			return refuse
		}
		if basicKind(t.Elem().Kind()) {
			return accept
		}
		if t.Elem().Kind() == reflect.Uint8 {
			return open
		}
		return refuse
	}},
	{"NewSSZBasicVector", wrapC(types.NewSSZBasicVector), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Array {
			return refuse
		}
		if basicKind(t.Elem().Kind()) {
			return accept
		}
		if t.Elem().Kind() == reflect.Uint8 {
			return open
		}
		return refuse
	}},
	{"NewSSZBytes", wrapC(types.NewSSZBytes), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Slice || t.Elem().Kind() != reflect.Uint8 || !limited(t) {
			return refuse
		}
		if sizedBits(t) {
			return open
		}
		return accept
	}},
	{"NewSSZBytesN", wrapC(types.NewSSZBytesN), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Array || t.Elem().Kind() != reflect.Uint8 {
			return refuse
		}
		if sizedBits(t) {
			return open
		}
		return accept
	}},
	{"NewSSZBitlist", wrapC(types.NewSSZBitlist), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Slice || t.Elem().Kind() != reflect.Uint8 || !limited(t) {
			return refuse
		}
		if !sizedBits(t) {
			return open
		}
		return accept
	}},
	{"NewSSZBitvector", wrapC(types.NewSSZBitvector), func(t reflect.Type, ok bool) int {
		if t.Kind() != reflect.Array || t.Elem().Kind() != reflect.Uint8 || !sizedBits(t) || !ok {
			return refuse
		}
		return accept
	}},
}

// definition checks one type in the factory and all specific constructors.
func definition(c *rt.Ctx, e universe.Entry) {
	c.State()
	c.Case(func() string { return "definition of " + e.Name })
	s, merr := model.FromType(e.T)
	ok := merr == nil
	d, err := tryBuild(c, "SSZFactory", func() (types.SSZ, error) { return types.SSZFactory(e.T) })
	if (err == nil) != ok {
		c.Fail("factory says %v, supported: %v (%v)", err, ok, merr)
	}
	if ok {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	if d2, err := tryBuild(c, "DefaultSSZFactory", func() (types.SSZ, error) { return types.DefaultSSZFactory(types.SSZFactory, e.T) }); (err == nil) != ok {
		c.Fail("default factory says %v (%v), supported: %v", err, d2, ok)
	}
	if ok {
		works(c, &typ{e, s, d}, "factory")
	}
	for _, k := range ctors {
		w := k.want(e.T, ok)
		c.Case(func() string { return k.name + " of " + e.Name })
		kd, err := tryBuild(c, k.name, func() (types.SSZ, error) { return k.mk(e.T) })
		if w == accept && err != nil || w == refuse && err == nil {
			c.Fail("constructor says %v", err)
		}
		if err == nil && w == accept && ok {
			works(c, &typ{e, s, kd}, k.name)
		}
	}
	// GetSSZ is the panicking form
	if !ok {
		c.Case(func() string { return "GetSSZ of " + e.Name })
		func() {
			defer func() { recover() }()
			d := zssz.GetSSZ(reflect.Zero(reflect.PointerTo(e.T)).Interface())
			c.FailSoft("a type that is not supported gets a definition: %v", d)
		}()
	}
	if ok {
		c.Case(func() string { return "GetSSZ of " + e.Name })
		works(c, &typ{e, s, zssz.GetSSZ(reflect.Zero(reflect.PointerTo(e.T)).Interface())}, "GetSSZ")
	}
}

// works: an accepted definition is complete: it handles a few values.
func works(c *rt.Ctx, t *typ, what string) {
	vs := []*model.Val{model.MinVal(t.S)}
	if v, ok := model.MaxVal(t.S, 60); ok {
		vs = append(vs, v)
	}
	for _, v := range vs {
		ser := model.Ser(t.S, v)
		p := model.NewGo(t.S, v)
		e, _, err := encode(t, p)
		c.Trans(3)
		c.Validated(3)
		if err != nil || !bytes.Equal(e, ser) {
			c.Fail("%s: value %s encodes to %x (%v), expected %x", what, v, e, err, ser)
		}
		if got, want := zssz.HashTreeRoot(shaFn, p.Interface(), t.D), shaModel.HTR(t.S, v); got != want {
			c.Fail("%s: value %s has root %x, expected %x", what, v, got, want)
		}
		if t.S.HasZeroSizeListElem() {
			continue
		}
		q := fresh(t)
		if err := decodeInto(t, q, ser); err != nil {
			c.Fail("%s: value %s does not decode: %v", what, v, err)
		}
	}
}

// dynamic bit lengths over byte arrays
type (
	dv0  [0]byte
	dv1  [1]byte
	dv2  [2]byte
	dv3  [3]byte
	dv5  [5]byte
	dv8  [8]byte
	dv32 [32]byte
	dv33 [33]byte
)

func (*dv0) BitLen() uint64  { return universe.DynLimit }
func (*dv1) BitLen() uint64  { return universe.DynLimit }
func (*dv2) BitLen() uint64  { return universe.DynLimit }
func (*dv3) BitLen() uint64  { return universe.DynLimit }
func (*dv5) BitLen() uint64  { return universe.DynLimit }
func (*dv8) BitLen() uint64  { return universe.DynLimit }
func (*dv32) BitLen() uint64 { return universe.DynLimit }
func (*dv33) BitLen() uint64 { return universe.DynLimit }

var c23 = &rt.Check{
	ID: "C23", Level: "model_checking",
	Shift:       true,
	Rule:        "93 component types (all Go kinds, named versions, lists without or with misdeclared limits, bitvectors with right and wrong lengths, limits declared on value receivers, recursive types) at 33 static positions (with blank and unexported fields), 54 declared structs that embed every kind of type, wrapped up to two more levels by reflection (pointers, arrays, struct fields with 7 kinds of tags); each type goes through the factory, GetSSZ and all 10 specific constructors; every limit and bit length swept with lists of exactly / one more than the limit; state = distinct type (or type and limit)",
	Assumptions: []string{"whether a specific constructor takes a type that another constructor also fits (e.g. bytes as a basic list) is left open"},
	Units: func(quick bool) []rt.Unit {
		var us []rt.Unit
		for _, p := range c23pool() {
			for i, e := range p.es {
				us = append(us, rt.Unit{Name: e.Name, Run: func(c *rt.Ctx) {
					definition(c, e)
					for _, w := range reflWraps(e) {
						definition(c, w)
						if quick && i%3 != 0 {
							continue
						}
						for _, w2 := range reflWraps(w) {
							definition(c, w2)
							if quick || i%4 != 0 {
								continue
							}
							for _, w3 := range reflWraps(w2) {
								definition(c, w3)
							}
						}
					}
				}})
			}
		}
		for _, e := range universe.Dynamic {
			us = append(us, rt.Unit{Name: e.Name + " limits", Run: func(c *rt.Ctx) {
				top := uint64(70)
				if !quick {
					top = 300
				}
				for lim := uint64(0); lim <= top; lim++ {
					universe.DynLimit = lim
					t := build(c, e)
					for n := max(lim, 2) - 2; n <= lim+9; n++ {
						for _, v := range lenVals(t.S, n) {
							d := model.Ser(t.S, v)
							c.State()
							c.Case(func() string { return fmt.Sprintf("limit %d list of %d", lim, n) })
							c.Trans(2)
							c.Validated(2)
							want := n <= lim
							if err := decodeInto(t, fresh(t), d); (err == nil) != want {
								c.Fail("decode says %v", err)
							}
							if err := zssz.DryCheck(bytes.NewReader(d), uint64(len(d)), t.D); (err == nil) != want {
								c.Fail("dry check says %v", err)
							}
						}
					}
				}
			}})
		}
		us = append(us, rt.Unit{Name: "bit lengths", Run: func(c *rt.Ctx) {
			var kept [3]bool // wrong, right, wrong again
			for i, n := range []uint64{9999, 40, 9999} {
				universe.DynLimit = n
				_, err := types.SSZFactory(reflect.TypeFor[dv5]())
				kept[i] = err == nil
			}
			if kept == [3]bool{false, true, true} {
				panic(rt.SkipUnit{})
			}
			for _, t := range []reflect.Type{reflect.TypeFor[dv0](), reflect.TypeFor[dv1](), reflect.TypeFor[dv2](), reflect.TypeFor[dv3](), reflect.TypeFor[dv8](), reflect.TypeFor[dv32](), reflect.TypeFor[dv33]()} {
				var bl []uint64
				for i := uint64(0); i < 300; i++ {
					bl = append(bl, i, ^uint64(0)-i, 1<<32+i, 1<<35+i, 1<<63+i)
				}
				for _, n := range bl {
					universe.DynLimit = n
					for _, w := range []reflect.Type{t, reflect.PointerTo(t), reflect.ArrayOf(2, t), reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})} {
						definition(c, universe.Entry{Name: fmt.Sprintf("%v, %d bits", w, n), T: w})
					}
				}
			}
		}})
		us = append(us, rt.Unit{Name: "types of the same name", Run: func(c *rt.Ctx) {
			ts := sameNames()
			for _, lv := range []int{0, 1, 2} {
				wraps := make([][]universe.Entry, len(ts))
				for i, t := range ts {
					ws := []universe.Entry{{Name: fmt.Sprintf("T%d", i), T: t}}
					for l := 0; l < lv; l++ {
						var next []universe.Entry
						for _, w := range ws {
							next = append(next, reflWraps(w)...)
						}
						ws = next
					}
					wraps[i] = ws
				}
				for a := range ts {
					for b := range ts {
						for k := range wraps[a] {
							x, y := wraps[a][k], wraps[b][k]
							both := universe.StructOf(x, y)
							for _, e := range []universe.Entry{x, y, both} {
								if s, err := model.FromType(e.T); err == nil {
									what := "after " + x.Name + " and " + y.Name
									c.State()
									c.Case(func() string { return e.Name + " " + what })
									works(c, &typ{e, s, zssz.GetSSZ(reflect.Zero(reflect.PointerTo(e.T)).Interface())}, what)
								}
							}
							if a == b || lv == 2 && b != (a+1)%len(ts) {
								break
							}
						}
					}
				}
			}
		}})
		us = append(us, rt.Unit{Name: "basic element kinds", Run: func(c *rt.Ctx) {
			for k := reflect.Kind(0); k < 40; k++ {
				c.State()
				c.Case(func() string { return fmt.Sprintf("GetBasicSSZElemType(%d)", k) })
				_, err := tryBuild(c, "GetBasicSSZElemType", func() (types.SSZ, error) { return types.GetBasicSSZElemType(k) })
				if want := basicKind(k) || k == reflect.Uint8; (err == nil) != want {
					c.Fail("says %v", err)
				}
			}
		}})
		return us
	},
}

// sameNames returns different types that all have the same name and package.
func sameNames() (out []reflect.Type) {
	add := func(t reflect.Type) { out = append(out, t) }
	func() { type T struct{ A uint8 }; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ A uint16 }; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ A, B uint8 }; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ B, A uint16 }; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ A L5 }; add(reflect.TypeFor[T]()) }()
	func() {
		type T struct {
			A L5 `ssz:"omit"`
			B uint8
		}
		add(reflect.TypeFor[T]())
	}()
	func() {
		type T struct {
			A struct{ X, Y uint8 } `ssz:"squash"`
			B uint8
		}
		add(reflect.TypeFor[T]())
	}()
	func() {
		type T struct {
			A struct{ X, Y uint8 }
			B uint8
		}
		add(reflect.TypeFor[T]())
	}()
	func() { type T [4]uint8; add(reflect.TypeFor[T]()) }()
	func() { type T [4]uint16; add(reflect.TypeFor[T]()) }()
	func() { type T [2]uint8; add(reflect.TypeFor[T]()) }()
	func() { type T [2]L5; add(reflect.TypeFor[T]()) }()
	func() { type T uint8; add(reflect.TypeFor[T]()) }()
	func() { type T uint64; add(reflect.TypeFor[T]()) }()
	func() { type T bool; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ A *uint32 }; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ A universe.L[bool, universe.N3] }; add(reflect.TypeFor[T]()) }()
	func() { type T struct{ A universe.BL[universe.N9] }; add(reflect.TypeFor[T]()) }()
	return
}
