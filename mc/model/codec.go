package model

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// ---- sizes

func (s *Schema) Fixed() bool {
	switch s.Kind {
	case KBytes, KBitlist, KList:
		return false
	case KVec, KPtr:
		return s.Elem.Fixed()
	case KCont:
		for _, f := range s.Fields {
			if !f.S.Fixed() {
				return false
			}
		}
	case KCustom:
		return s.C.Fixed
	}
	return true
}

// FixedPart is the length of the part inlined in an enclosing fixed part for fixed types;
// for variable containers and vectors the length of their own fixed part.
func (s *Schema) FixedPart() uint64 {
	switch s.Kind {
	case KBool:
		return 1
	case KUint:
		return uint64(s.Size)
	case KBytesN:
		return s.N
	case KBitvec:
		return (s.N + 7) / 8
	case KPtr:
		return s.Elem.FixedPart()
	case KVec:
		return s.N * slot(s.Elem)
	case KCont:
		n := uint64(0)
		for _, f := range s.Fields {
			n += slot(f.S)
		}
		return n
	case KCustom:
		return s.C.FixedLen
	}
	return 0
}

func slot(s *Schema) uint64 {
	if s.Fixed() {
		return s.FixedPart()
	}
	return 4
}

func (s *Schema) MinLen() uint64 {
	switch s.Kind {
	case KBytes, KList:
		return 0
	case KBitlist:
		return 1
	case KPtr:
		return s.Elem.MinLen()
	case KVec:
		if s.Fixed() {
			return s.FixedPart()
		}
		return s.N * (4 + s.Elem.MinLen())
	case KCont:
		n := s.FixedPart()
		for _, f := range s.Fields {
			if !f.S.Fixed() {
				n += f.S.MinLen()
			}
		}
		return n
	case KCustom:
		return s.C.Min
	}
	return s.FixedPart()
}

// MaxLen is exact (arbitrary precision: limits may be astronomically large).
func (s *Schema) MaxLen() *big.Int {
	b := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	switch s.Kind {
	case KBytes:
		return b(s.N)
	case KBitlist:
		return b(s.N/8 + 1)
	case KPtr:
		return s.Elem.MaxLen()
	case KList, KVec:
		m := s.Elem.MaxLen()
		if !s.Elem.Fixed() {
			m.Add(m, b(4))
		}
		return m.Mul(m, b(s.N))
	case KCont:
		n := b(s.FixedPart())
		for _, f := range s.Fields {
			if !f.S.Fixed() {
				n.Add(n, f.S.MaxLen())
			}
		}
		return n
	case KCustom:
		return b(s.C.Max)
	}
	return b(s.FixedPart())
}

// ---- serialization

func Ser(s *Schema, v *Val) []byte { return appendSer(nil, s, v) }

func appendSer(out []byte, s *Schema, v *Val) []byte {
	switch s.Kind {
	case KBool:
		return append(out, byte(v.U))
	case KUint:
		for i := 0; i < s.Size; i++ {
			out = append(out, byte(v.U>>(8*i)))
		}
		return out
	case KBytesN, KBytes:
		return append(out, v.B...)
	case KBitvec:
		return append(out, packBits(v.B)...)
	case KBitlist:
		return append(out, packBitlist(v.B)...)
	case KPtr:
		return appendSer(out, s.Elem, v)
	case KVec, KList:
		if s.Elem.Fixed() {
			for _, e := range v.E {
				out = appendSer(out, s.Elem, e)
			}
			return out
		}
		ss := make([]*Schema, len(v.E))
		for i := range ss {
			ss[i] = s.Elem
		}
		return appendParts(out, ss, v.E)
	case KCont:
		ss := make([]*Schema, len(s.Fields))
		for i := range ss {
			ss[i] = s.Fields[i].S
		}
		return appendParts(out, ss, v.E)
	case KCustom:
		return append(out, s.C.Ser(v)...)
	}
	panic("unreachable")
}

func appendParts(out []byte, ss []*Schema, vs []*Val) []byte {
	off := uint64(0)
	for _, s := range ss {
		off += slot(s)
	}
	var tail []byte
	for i, s := range ss {
		if s.Fixed() {
			out = appendSer(out, s, vs[i])
		} else {
			at := off + uint64(len(tail))
			if at >= 1<<32 {
				panic("model: offset overflow")
			}
			out = binary.LittleEndian.AppendUint32(out, uint32(at))
			tail = appendSer(tail, s, vs[i])
		}
	}
	return append(out, tail...)
}

// Deser decodes leniently, then demands that re-serialization reproduces the input exactly and that
// the value is within its limits: that is the whole definition of strictness.
func Deser(s *Schema, data []byte) (*Val, bool) {
	v, ok := lenient(s, data)
	if !ok || !Valid(s, v) {
		return nil, false
	}
	if string(Ser(s, v)) != string(data) {
		return nil, false
	}
	return v, true
}

func lenient(s *Schema, d []byte) (*Val, bool) {
	if s.Fixed() && uint64(len(d)) != s.FixedPart() {
		return nil, false
	}
	switch s.Kind {
	case KBool:
		return &Val{U: uint64(d[0])}, d[0] <= 1
	case KUint:
		u := uint64(0)
		for i := 0; i < s.Size; i++ {
			u |= uint64(d[i]) << (8 * i)
		}
		return &Val{U: u}, true
	case KBytesN, KBytes:
		return &Val{B: append([]byte{}, d...)}, true
	case KBitvec:
		bits := make([]byte, s.N)
		for i := range bits {
			bits[i] = d[i/8] >> (i % 8) & 1
		}
		return &Val{B: bits}, true
	case KBitlist:
		bits, ok := unpackBitlist(d)
		return &Val{B: bits}, ok
	case KPtr:
		return lenient(s.Elem, d)
	case KVec, KList:
		n := int(s.N)
		if s.Elem.Fixed() {
			es := int(s.Elem.FixedPart())
			if s.Kind == KList {
				if es == 0 {
					return nil, false
				}
				n = len(d) / es
			}
			o := &Val{E: make([]*Val, n)}
			for i := range o.E {
				e, ok := lenient(s.Elem, d[i*es:(i+1)*es])
				if !ok {
					return nil, false
				}
				o.E[i] = e
			}
			return o, true
		}
		if s.Kind == KList {
			n = 0
			if len(d) > 0 {
				if len(d) < 4 {
					return nil, false
				}
				first := uint64(binary.LittleEndian.Uint32(d))
				if first == 0 || first > uint64(len(d)) {
					return nil, false
				}
				n = int(first / 4)
			}
		}
		ss := make([]*Schema, n)
		for i := range ss {
			ss[i] = s.Elem
		}
		return lenientParts(ss, d)
	case KCont:
		ss := make([]*Schema, len(s.Fields))
		for i := range ss {
			ss[i] = s.Fields[i].S
		}
		return lenientParts(ss, d)
	case KCustom:
		return s.C.Deser(d)
	}
	panic("unreachable")
}

func lenientParts(ss []*Schema, d []byte) (*Val, bool) {
	o := &Val{E: make([]*Val, len(ss))}
	pos := uint64(0)
	var idx []int
	var offs []uint64
	for i, s := range ss {
		n := slot(s)
		if pos+n > uint64(len(d)) {
			return nil, false
		}
		if s.Fixed() {
			e, ok := lenient(s, d[pos:pos+n])
			if !ok {
				return nil, false
			}
			o.E[i] = e
		} else {
			idx = append(idx, i)
			offs = append(offs, uint64(binary.LittleEndian.Uint32(d[pos:])))
		}
		pos += n
	}
	offs = append(offs, uint64(len(d)))
	for k, i := range idx {
		if offs[k] > offs[k+1] || offs[k+1] > uint64(len(d)) {
			return nil, false
		}
		e, ok := lenient(ss[i], d[offs[k]:offs[k+1]])
		if !ok {
			return nil, false
		}
		o.E[i] = e
	}
	return o, true
}

// Valid checks the limits.
func Valid(s *Schema, v *Val) bool {
	switch s.Kind {
	case KBytes, KBitlist:
		return uint64(len(v.B)) <= s.N
	case KBytesN, KBitvec:
		return uint64(len(v.B)) == s.N
	case KPtr:
		return Valid(s.Elem, v)
	case KList, KVec:
		if s.Kind == KList && uint64(len(v.E)) > s.N || s.Kind == KVec && uint64(len(v.E)) != s.N {
			return false
		}
		for _, e := range v.E {
			if !Valid(s.Elem, e) {
				return false
			}
		}
	case KCont:
		for i, f := range s.Fields {
			if !Valid(f.S, v.E[i]) {
				return false
			}
		}
	}
	return true
}

// HasZeroSizeListElem: lists of zero-size elements are outside SSZ.
func (s *Schema) HasZeroSizeListElem() bool {
	if s.Kind == KList && s.Elem.Fixed() && s.Elem.FixedPart() == 0 {
		return true
	}
	if s.Elem != nil && s.Elem.HasZeroSizeListElem() {
		return true
	}
	for _, f := range s.Fields {
		if f.S.HasZeroSizeListElem() {
			return true
		}
	}
	return false
}

// ---- hash tree root

type Hash func(in []byte) [32]byte

type Merkler struct {
	H  Hash
	ZH [65][32]byte
}

func NewMerkler(h Hash) *Merkler {
	m := &Merkler{H: h}
	for i := 0; i < 64; i++ {
		m.ZH[i+1] = m.Pair(m.ZH[i], m.ZH[i])
	}
	return m
}

func (m *Merkler) Pair(a, b [32]byte) [32]byte {
	var v [64]byte
	copy(v[:], a[:])
	copy(v[32:], b[:])
	return m.H(v[:])
}

// Depth is ceil(log2(limit)), 0 for limit 0 and 1.
func Depth(limit uint64) int {
	if limit <= 1 {
		return 0
	}
	return bits.Len64(limit - 1)
}

// Tree is the root of the full tree of the given depth with zero padding.
func (m *Merkler) Tree(chunks [][32]byte, depth int) [32]byte {
	if len(chunks) == 0 {
		return m.ZH[depth]
	}
	if depth == 0 {
		return chunks[0]
	}
	l, r := chunks, [][32]byte(nil)
	if depth-1 < bits.UintSize-2 && len(chunks) > 1<<(depth-1) {
		l, r = chunks[:1<<(depth-1)], chunks[1<<(depth-1):]
	}
	return m.Pair(m.Tree(l, depth-1), m.Tree(r, depth-1))
}

func (m *Merkler) Merkleize(chunks [][32]byte, limit uint64) [32]byte {
	return m.Tree(chunks, Depth(limit))
}

func (m *Merkler) mixIn(r [32]byte, n uint64) [32]byte {
	var l [32]byte
	binary.LittleEndian.PutUint64(l[:], n)
	return m.Pair(r, l)
}

func pack(b []byte) [][32]byte {
	out := make([][32]byte, (len(b)+31)/32)
	for i := range out {
		copy(out[i][:], b[i*32:])
	}
	return out
}

// ceil(a*b/32) without overflow
func chunkLimit(n, size uint64) uint64 {
	x := new(big.Int).Mul(new(big.Int).SetUint64(n), new(big.Int).SetUint64(size))
	x.Add(x, big.NewInt(31))
	x.Rsh(x, 5)
	return x.Uint64()
}

func (s *Schema) basic() bool { return s.Kind == KBool || s.Kind == KUint }

func (m *Merkler) HTR(s *Schema, v *Val) [32]byte {
	switch s.Kind {
	case KBool, KUint:
		var o [32]byte
		copy(o[:], Ser(s, v))
		return o
	case KBytesN:
		return m.Merkleize(pack(v.B), chunkLimit(s.N, 1))
	case KBytes:
		return m.mixIn(m.Merkleize(pack(v.B), chunkLimit(s.N, 1)), uint64(len(v.B)))
	case KBitvec:
		return m.Merkleize(pack(packBits(v.B)), chunkLimit((s.N+7)/8, 1))
	case KBitlist:
		nb := s.N / 8
		if s.N%8 != 0 {
			nb++
		}
		return m.mixIn(m.Merkleize(pack(packBits(v.B)), chunkLimit(nb, 1)), uint64(len(v.B)))
	case KPtr:
		return m.HTR(s.Elem, v)
	case KVec, KList:
		var r [32]byte
		if s.Elem.basic() {
			var d []byte
			for _, e := range v.E {
				d = appendSer(d, s.Elem, e)
			}
			r = m.Merkleize(pack(d), chunkLimit(s.N, s.Elem.FixedPart()))
		} else {
			ch := make([][32]byte, len(v.E))
			for i, e := range v.E {
				ch[i] = m.HTR(s.Elem, e)
			}
			r = m.Merkleize(ch, s.N)
		}
		if s.Kind == KList {
			return m.mixIn(r, uint64(len(v.E)))
		}
		return r
	case KCont:
		return m.contRoot(s, v, len(s.Fields))
	case KCustom:
		return s.C.HTR(m.H, v)
	}
	panic("unreachable")
}

func (m *Merkler) contRoot(s *Schema, v *Val, n int) [32]byte {
	ch := make([][32]byte, n)
	for i := range ch {
		ch[i] = m.HTR(s.Fields[i].S, v.E[i])
	}
	return m.Merkleize(ch, uint64(n))
}

// SigningRoot: the container without its last field.
func (m *Merkler) SigningRoot(s *Schema, v *Val) [32]byte {
	n := len(s.Fields)
	if n > 0 {
		n--
	}
	return m.contRoot(s, v, n)
}
