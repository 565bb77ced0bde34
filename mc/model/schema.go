// Package model is the reference model: a boring, independent statement of SSZ.
// It derives a schema from a Go type following the rules of the README, and works on
// abstract values. It shares no code with the implementation under check.
package model

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

type Kind uint8

const (
	KBool Kind = iota
	KUint
	KBytesN
	KBytes
	KBitvec
	KBitlist
	KVec
	KList
	KCont
	KPtr
	KCustom
)

// Custom is a user-defined leaf (see the C24 check).
type Custom struct {
	Fixed    bool
	FixedLen uint64
	Min, Max uint64
	Ser      func(v *Val) []byte
	Deser    func(data []byte) (*Val, bool)
	HTR      func(h Hash, v *Val) [32]byte
	ToGo     func(v *Val, rv reflect.Value)
	FromGo   func(rv reflect.Value) (*Val, error)
}

type Schema struct {
	Kind   Kind
	Size   int    // KUint: bytes
	N      uint64 // KBytesN, KVec: length. KBitvec: bits. KBytes, KBitlist, KList: limit
	Elem   *Schema
	Fields []Field
	Typ    reflect.Type
	C      *Custom
}

type Field struct {
	Name string
	S    *Schema
	Path []int
}

type limited interface{ Limit() uint64 }
type sized interface{ BitLen() uint64 }

var limitedT = reflect.TypeFor[limited]()
var sizedT = reflect.TypeFor[sized]()

type Resolver func(t reflect.Type) *Schema // returns non-nil to override a type (custom definitions)

func FromType(t reflect.Type) (*Schema, error) { return FromTypeWith(t, nil) }

// MustFromType panics on unsupported types.
func MustFromType(t reflect.Type) *Schema {
	s, err := FromType(t)
	if err != nil {
		panic(err)
	}
	return s
}

func FromTypeWith(t reflect.Type, res Resolver) (*Schema, error) { return fromType(t, res, nil) }

// within: the types t is nested in
func fromType(t reflect.Type, res Resolver, within []reflect.Type) (*Schema, error) {
	for _, w := range within {
		if w == t {
			return nil, fmt.Errorf("recursive type %v", t)
		}
	}
	within = append(within[:len(within):len(within)], t)
	if res != nil {
		if s := res(t); s != nil {
			return s, nil
		}
	}
	mk := func(s Schema) (*Schema, error) { s.Typ = t; return &s, nil }
	switch t.Kind() {
	case reflect.Bool:
		return mk(Schema{Kind: KBool})
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return mk(Schema{Kind: KUint, Size: int(t.Size())})
	case reflect.Ptr:
		e, err := fromType(t.Elem(), res, within)
		if err != nil {
			return nil, err
		}
		return mk(Schema{Kind: KPtr, Elem: e})
	case reflect.Array:
		n := uint64(t.Len())
		if t.Elem().Kind() == reflect.Uint8 {
			if reflect.PointerTo(t).Implements(sizedT) {
				bits := reflect.New(t).Interface().(sized).BitLen()
				if bits/8+(bits%8+7)/8 != n {
					return nil, fmt.Errorf("bitvector byte length mismatch")
				}
				return mk(Schema{Kind: KBitvec, N: bits})
			}
			return mk(Schema{Kind: KBytesN, N: n})
		}
		e, err := elemSchema(t.Elem(), res, within)
		if err != nil {
			return nil, err
		}
		return mk(Schema{Kind: KVec, N: n, Elem: e})
	case reflect.Slice:
		pt := reflect.PointerTo(t)
		if !pt.Implements(limitedT) {
			return nil, fmt.Errorf("list without limit: %v", t)
		}
		lim := reflect.New(t).Interface().(limited).Limit()
		if t.Elem().Kind() == reflect.Uint8 {
			if pt.Implements(sizedT) {
				return mk(Schema{Kind: KBitlist, N: lim})
			}
			return mk(Schema{Kind: KBytes, N: lim})
		}
		e, err := elemSchema(t.Elem(), res, within)
		if err != nil {
			return nil, err
		}
		return mk(Schema{Kind: KList, N: lim, Elem: e})
	case reflect.Struct:
		s := Schema{Kind: KCont}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			flags := map[string]bool{}
			if tag, ok := f.Tag.Lookup("ssz"); ok {
				for _, x := range strings.Split(tag, ",") {
					flags[x] = true
				}
			}
			if flags["omit"] {
				continue
			}
			fs, err := fromType(f.Type, res, within)
			if err != nil {
				return nil, err
			}
			if flags["squash"] || f.Anonymous {
				if fs.Kind == KCont {
					for _, sub := range fs.Fields {
						s.Fields = append(s.Fields, Field{Name: sub.Name, S: sub.S, Path: append([]int{i}, sub.Path...)})
					}
					continue
				}
				if flags["squash"] {
					return nil, fmt.Errorf("cannot squash %v", f.Type)
				}
			}
			s.Fields = append(s.Fields, Field{Name: f.Name, S: fs, Path: []int{i}})
		}
		return mk(s)
	}
	return nil, fmt.Errorf("unsupported type %v", t)
}

// elements of a basic kind never go through the resolver (documented: optimized series)
func elemSchema(t reflect.Type, res Resolver, within []reflect.Type) (*Schema, error) {
	switch t.Kind() {
	case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fromType(t, nil, within)
	}
	return fromType(t, res, within)
}

// Val is an abstract SSZ value: U for bool/uint, B for bytes (or one 0/1 byte per bit), E for elements/fields.
// Pointers are transparent.
type Val struct {
	U uint64
	B []byte
	E []*Val
}

func (v *Val) Copy() *Val {
	o := &Val{U: v.U}
	if v.B != nil {
		o.B = append(make([]byte, 0, len(v.B)), v.B...)
	}
	if v.E != nil {
		o.E = make([]*Val, len(v.E))
		for i, e := range v.E {
			o.E[i] = e.Copy()
		}
	}
	return o
}

func Equal(a, b *Val) bool {
	if a.U != b.U || string(a.B) != string(b.B) || len(a.E) != len(b.E) {
		return false
	}
	for i := range a.E {
		if !Equal(a.E[i], b.E[i]) {
			return false
		}
	}
	return true
}

func (v *Val) String() string {
	var sb strings.Builder
	v.str(&sb)
	return sb.String()
}

func (v *Val) str(sb *strings.Builder) {
	if v.E != nil {
		sb.WriteByte('[')
		for i, e := range v.E {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if sb.Len() > 600 {
				sb.WriteString("...")
				break
			}
			e.str(sb)
		}
		sb.WriteByte(']')
	} else if v.B != nil {
		b := v.B
		if len(b) > 80 {
			fmt.Fprintf(sb, "x%x..(%d)", b[:80], len(b))
		} else {
			fmt.Fprintf(sb, "x%x", b)
		}
	} else {
		fmt.Fprintf(sb, "%d", v.U)
	}
}

func settable(rv reflect.Value) reflect.Value {
	if rv.CanSet() {
		return rv
	}
	return reflect.NewAt(rv.Type(), unsafe.Pointer(rv.UnsafeAddr())).Elem()
}

// ToGo writes the abstract value into an addressable Go value (fresh memory for slices and pointers).
func ToGo(s *Schema, v *Val, rv reflect.Value) {
	rv = settable(rv)
	switch s.Kind {
	case KBool:
		rv.SetBool(v.U != 0)
	case KUint:
		rv.SetUint(v.U)
	case KBytesN:
		for i, b := range v.B {
			rv.Index(i).SetUint(uint64(b))
		}
	case KBytes:
		rv.Set(reflect.MakeSlice(rv.Type(), len(v.B), len(v.B)))
		copy(rv.Bytes(), v.B)
	case KBitvec:
		p := packBits(v.B)
		for i, b := range p {
			rv.Index(i).SetUint(uint64(b))
		}
	case KBitlist:
		p := packBitlist(v.B)
		rv.Set(reflect.MakeSlice(rv.Type(), len(p), len(p)))
		copy(rv.Bytes(), p)
	case KVec:
		for i, e := range v.E {
			ToGo(s.Elem, e, rv.Index(i))
		}
	case KList:
		rv.Set(reflect.MakeSlice(rv.Type(), len(v.E), len(v.E)))
		for i, e := range v.E {
			ToGo(s.Elem, e, rv.Index(i))
		}
	case KCont:
		for i, f := range s.Fields {
			ToGo(f.S, v.E[i], fieldAt(rv, f.Path))
		}
	case KPtr:
		p := reflect.New(rv.Type().Elem())
		ToGo(s.Elem, v, p.Elem())
		rv.Set(p)
	case KCustom:
		s.C.ToGo(v, rv)
	}
}

func fieldAt(rv reflect.Value, path []int) reflect.Value {
	for _, i := range path {
		rv = settable(rv.Field(i))
	}
	return rv
}

// NewGo returns a pointer to a fresh Go value equal to v.
func NewGo(s *Schema, v *Val) reflect.Value {
	p := reflect.New(s.Typ)
	ToGo(s, v, p.Elem())
	return p
}

// FromGo reads the abstract value out of Go memory. It reports ill-formed Go values (bad bools, nil pointers,
// malformed bitfields).
func FromGo(s *Schema, rv reflect.Value) (*Val, error) {
	rv = settable(rv)
	switch s.Kind {
	case KBool:
		b := *(*byte)(unsafe.Pointer(rv.UnsafeAddr()))
		if b > 1 {
			return nil, fmt.Errorf("ill-formed bool byte %d", b)
		}
		return &Val{U: uint64(b)}, nil
	case KUint:
		return &Val{U: rv.Uint()}, nil
	case KBytesN:
		b := make([]byte, s.N)
		reflect.Copy(reflect.ValueOf(b), rv.Convert(reflect.ArrayOf(int(s.N), byteT)))
		return &Val{B: b}, nil
	case KBytes:
		return &Val{B: append(make([]byte, 0, rv.Len()), rv.Bytes()...)}, nil
	case KBitvec:
		raw := make([]byte, rv.Len())
		for i := range raw {
			raw[i] = byte(rv.Index(i).Uint())
		}
		bits := make([]byte, s.N)
		for i := range bits {
			bits[i] = raw[i/8] >> (i % 8) & 1
		}
		if string(packBits(bits)) != string(raw) {
			return nil, fmt.Errorf("bitvector padding bits set: %x", raw)
		}
		return &Val{B: bits}, nil
	case KBitlist:
		bits, ok := unpackBitlist(rv.Bytes())
		if !ok {
			return nil, fmt.Errorf("bitlist without delimiter: %x", rv.Bytes())
		}
		return &Val{B: bits}, nil
	case KVec, KList:
		o := &Val{E: make([]*Val, rv.Len())}
		for i := range o.E {
			e, err := FromGo(s.Elem, rv.Index(i))
			if err != nil {
				return nil, err
			}
			o.E[i] = e
		}
		return o, nil
	case KCont:
		o := &Val{E: make([]*Val, len(s.Fields))}
		for i, f := range s.Fields {
			e, err := FromGo(f.S, fieldAt(rv, f.Path))
			if err != nil {
				return nil, err
			}
			o.E[i] = e
		}
		return o, nil
	case KPtr:
		if rv.IsNil() {
			return nil, fmt.Errorf("nil pointer")
		}
		return FromGo(s.Elem, rv.Elem())
	case KCustom:
		return s.C.FromGo(rv)
	}
	panic("unreachable")
}

var byteT = reflect.TypeFor[byte]()

// WellFormed checks that a Go value is a legal Go value (bools are 0/1, slices are usable), without demanding SSZ validity.
func WellFormed(s *Schema, rv reflect.Value) error {
	rv = settable(rv)
	switch s.Kind {
	case KBool:
		if b := *(*byte)(unsafe.Pointer(rv.UnsafeAddr())); b > 1 {
			return fmt.Errorf("ill-formed bool byte %d", b)
		}
	case KBytes, KBitlist:
		if err := sliceOK(rv); err != nil {
			return err
		}
		t := byte(0)
		for _, b := range rv.Bytes() {
			t ^= b
		}
		sink = t
	case KList, KVec:
		if s.Kind == KList {
			if err := sliceOK(rv); err != nil {
				return err
			}
		}
		for i := 0; i < rv.Len(); i++ {
			if err := WellFormed(s.Elem, rv.Index(i)); err != nil {
				return err
			}
		}
	case KCont:
		for _, f := range s.Fields {
			if err := WellFormed(f.S, fieldAt(rv, f.Path)); err != nil {
				return err
			}
		}
	case KPtr:
		if !rv.IsNil() {
			return WellFormed(s.Elem, rv.Elem())
		}
	}
	return nil
}

var sink byte

func sliceOK(rv reflect.Value) error {
	h := (*[3]uintptr)(unsafe.Pointer(rv.UnsafeAddr()))
	if int(h[1]) < 0 || int(h[2]) < 0 || h[1] > h[2] {
		return fmt.Errorf("ill-formed slice header len=%d cap=%d", int(h[1]), int(h[2]))
	}
	if h[2] > 0 && h[0] == 0 {
		return fmt.Errorf("ill-formed slice header: nil data with cap=%d", h[2])
	}
	return nil
}

func packBits(bits []byte) []byte {
	out := make([]byte, (len(bits)+7)/8)
	for i, b := range bits {
		out[i/8] |= b << (i % 8)
	}
	return out
}

func packBitlist(bits []byte) []byte {
	return packBits(append(append(make([]byte, 0, len(bits)+1), bits...), 1))
}

func unpackBitlist(raw []byte) ([]byte, bool) {
	if len(raw) == 0 || raw[len(raw)-1] == 0 {
		return nil, false
	}
	n := len(raw) * 8
	for raw[(n-1)/8]>>((n-1)%8)&1 == 0 {
		n--
	}
	n-- // delimiter
	bits := make([]byte, n)
	for i := range bits {
		bits[i] = raw[i/8] >> (i % 8) & 1
	}
	return bits, true
}
