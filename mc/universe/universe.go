// Package universe is the bounded type grammar the checks range over.
package universe

import (
	"reflect"

	"verif/mc/model"
)

type Entry struct {
	Name string
	T    reflect.Type
}

// Lim is a type-level limit.
type Lim interface{ V() uint64 }

// D is the limit set at run time (read by both sides when a definition is built).
type D struct{}

var DynLimit uint64

func (D) V() uint64 { return DynLimit }

type L[T any, N Lim] []T

func (*L[T, N]) Limit() uint64 { var n N; return n.V() }

type BL[N Lim] []byte

func (*BL[N]) Limit() uint64 { var n N; return n.V() }

// BitLen marks the type as a bitlist; the library never needs the value.
func (b *BL[N]) BitLen() uint64 { return 0 }

type S0 struct{}
type S1[A any] struct{ A A }
type S2[A, B any] struct {
	A A
	B B
}
type S3[A, B, C any] struct {
	A A
	B B
	C C
}
type S4[A, B, C, E any] struct {
	A A
	B B
	C C
	E E
}

// Omit1 has omitted fields of Go types SSZ does not know, and a name that only contains the flag word.
type Omit1 struct {
	A uint16
	X map[string]int `ssz:"omit"`
	B L[uint16, N3]
	Y interface{} `ssz:"foo,omit"`
	C uint8       `ssz:"omitted"`
	Z chan int    `json:"z" ssz:"omit,foo"`
}

type sqIn struct {
	P uint8
	Q L[byte, N5]
}

type Squash1 struct {
	A uint32
	B S2[uint16, sqIn] `ssz:"squash"`
	sqIn
	C S1[S1[uint8]] `ssz:"foo,squash"`
}

type Many33 struct {
	F00, F01, F02, F03, F04, F05, F06, F07, F08, F09, F10 uint8
	F11, F12, F13, F14, F15, F16, F17, F18, F19, F20, F21 uint16
	F22                                                   L[byte, N2]
	F23, F24, F25, F26, F27, F28, F29, F30, F31           bool
	F32                                                   L[uint16, N2]
}

type Deep struct {
	A *S2[*S1[*L[uint16, N3]], *Bv9]
	B L[*S2[uint8, *L[byte, N5]], N3]
	C [2]*L[S1[uint32], N2]
	D BL[N17]
}

type Checkpoint struct {
	Epoch uint64
	Root  [32]byte
}

type AttData struct {
	Slot   uint64
	Index  uint64
	Block  [32]byte
	Source Checkpoint
	Target Checkpoint
}

type Eth1 struct {
	Bits  BL[N2048]
	Data  AttData
	Sig   [96]byte
	Extra L[uint64, N100]
}

type Eth2 struct {
	Slot    uint64
	Parent  *[32]byte
	Atts    L[Eth1, N8]
	Indices L[L[uint64, N12], N5]
	Bv      Bv513
	Flags   [5]bool
	Cp      *Checkpoint
	Sig     [96]byte
}

// All returns every static type up to the given level (1 leaves .. 4), in a fixed order, without duplicates.
func All(level int) []Entry {
	var out []Entry
	seen := map[reflect.Type]bool{}
	add := func(es []Entry) {
		for _, e := range es {
			if !seen[e.T] {
				seen[e.T] = true
				out = append(out, e)
			}
		}
	}
	add(Leaves)
	if level >= 2 {
		add(Level2)
	}
	if level >= 3 {
		add(Level3)
	}
	if level >= 4 {
		add(Level4)
		add(Composed())
	}
	return out
}

// Pool used for the fields of generated containers.
var FieldPool = []Entry{
	{"uint8", reflect.TypeFor[uint8]()},
	{"bool", reflect.TypeFor[bool]()},
	{"uint32", reflect.TypeFor[uint32]()},
	{"uint64", reflect.TypeFor[uint64]()},
	{"[3]byte", reflect.TypeFor[[3]byte]()},
	{"[33]byte", reflect.TypeFor[[33]byte]()},
	{"Bv9", reflect.TypeFor[Bv9]()},
	{"[3]uint16", reflect.TypeFor[[3]uint16]()},
	{"L[byte,5]", reflect.TypeFor[L[byte, N5]]()},
	{"BL[9]", reflect.TypeFor[BL[N9]]()},
	{"L[uint16,3]", reflect.TypeFor[L[uint16, N3]]()},
	{"L[bool,4]", reflect.TypeFor[L[bool, N4]]()},
	{"S2[u8,u16]", reflect.TypeFor[S2[uint8, uint16]]()},
	{"S2[u8,L[byte,5]]", reflect.TypeFor[S2[uint8, L[byte, N5]]]()},
	{"L[L[byte,5],2]", reflect.TypeFor[L[L[byte, N5], N2]]()},
	{"*uint16", reflect.TypeFor[*uint16]()},
	{"*S2[u8,L[u16,3]]", reflect.TypeFor[*S2[uint8, L[uint16, N3]]]()},
	{"[2]L[byte,3]", reflect.TypeFor[[2]L[byte, N3]]()},
	{"S0", reflect.TypeFor[S0]()},
	{"L[S2[u8,u32],3]", reflect.TypeFor[L[S2[uint8, uint32], N3]]()},
}

var fieldNames = []string{"A", "B", "C", "E", "F", "G", "H", "I", "J", "K", "M", "N", "O", "P", "Q", "R", "T", "U", "V", "W", "X", "Y", "Z", "Aa", "Ab", "Ac", "Ad", "Ae", "Af"}

// StructOf builds a plain container type.
func StructOf(fields ...Entry) Entry {
	sf := make([]reflect.StructField, len(fields))
	name := "struct{"
	for i, f := range fields {
		sf[i] = reflect.StructField{Name: fieldNames[i], Type: f.T}
		if i > 0 {
			name += ";"
		}
		name += f.Name
	}
	return Entry{name + "}", reflect.StructOf(sf)}
}

// Containers returns all pairs (and, when triples is set, all triples over a sub-pool) of the field pool.
func Containers(pool []Entry, arity int) []Entry {
	var out []Entry
	idx := make([]int, arity)
	for {
		fs := make([]Entry, arity)
		for i, k := range idx {
			fs[i] = pool[k]
		}
		out = append(out, StructOf(fs...))
		k := arity - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(pool) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			return out
		}
	}
}

// Rep is a small representative sub-pool: every distinct code path once.
var Rep = []Entry{FieldPool[0], FieldPool[1], FieldPool[3], FieldPool[4], FieldPool[8], FieldPool[9], FieldPool[10], FieldPool[13], FieldPool[16]}

// Schema of an entry.
func (e Entry) Schema() *model.Schema { return model.MustFromType(e.T) }

// Find returns the entries with these names.
func Find(names ...string) []Entry {
	all := append(All(4), Big...)
	var out []Entry
	for _, n := range names {
		ok := false
		for _, e := range all {
			if e.Name == n {
				out = append(out, e)
				ok = true
				break
			}
		}
		if !ok {
			panic("universe: no type " + n)
		}
	}
	return out
}
