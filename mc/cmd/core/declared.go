package main

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	"verif/mc/universe"
)

// Struct declarations reflection alone does not reach: blank and unexported fields, and everything Go lets one embed.

type blankMid[T any] struct {
	A uint8
	_ T
	B L5
}

type blankTwice[T any] struct {
	_ T
	A uint16
	_ T
}

type blankOmit[T any] struct {
	A uint16
	_ T `ssz:"omit"`
	B uint8
}

type blankSquash[T any] struct {
	A uint16
	_ struct {
		A uint32
		B T
	} `ssz:"squash"`
	_ uint8
}

type hidden[T any] struct {
	a uint16
	b T
	C L5
}

type sqPart[T any] struct {
	A uint16
	B T
}

// one type flattened several times
type sqTwice[T any] struct {
	A uint8
	X sqPart[T] `ssz:"squash"`
	Y sqPart[T] `ssz:"squash"`
	B L5
	Z sqPart[T]
}

type sqNest[T any] struct {
	P struct {
		X sqPart[T] `ssz:"squash"`
		U uint8
	} `ssz:"squash"`
	Y sqPart[T] `ssz:"squash"`
	Q struct {
		U uint8
		X sqPart[T] `ssz:"squash"`
	} `ssz:"squash"`
}

// blanks puts T in unnamed and unexported fields.
func blanks[T any](name string) []universe.Entry {
	e := func(f string, t reflect.Type) universe.Entry { return universe.Entry{Name: fmt.Sprintf(f, name), T: t} }
	return []universe.Entry{
		e("{A u8; _ %s; B L5}", reflect.TypeFor[blankMid[T]]()),
		e("{_ %s; A u16; _ %[1]s}", reflect.TypeFor[blankTwice[T]]()),
		e("{A u16; _ %s omit; B u8}", reflect.TypeFor[blankOmit[T]]()),
		e("{A u16; _ {A u32; B %s} squash; _ u8}", reflect.TypeFor[blankSquash[T]]()),
		e("{A u8; {u16; %s} squash; {u16; %[1]s} squash; B L5; Z {u16; %[1]s}}", reflect.TypeFor[sqTwice[T]]()),
		e("{{{u16; %s} squash; u8} squash; {u16; %[1]s} squash; {u8; {u16; %[1]s} squash} squash}", reflect.TypeFor[sqNest[T]]()),
		e("{a u16; b %s; C L5}", reflect.TypeFor[hidden[T]]()),
	}
}

type (
	eInt    int
	eStr    string
	eFunc   func()
	eChan   chan int
	eMap    map[uint8]uint8
	eFloat  float32
	eBytes4 [4]byte
	eU16x3  [3]uint16
	eIface  interface{ M() }
	eEmpty  struct{}
	eTwo    struct {
		X uint16
		Y universe.L[uint16, universe.N3]
	}
	eBad struct {
		X uint16
		Y int
	}
	eIfaceIn struct {
		X uint16
		error
	}
	eDeep struct {
		eTwo
		Z uint8
	}
	arrLim  [3]uint16
	byteLim [3]byte
	u64Lim  uint64
	strLim  string
	stLim   struct{ A, B uint16 }
	mapLim  map[int]int
)

func (*arrLim) Limit() uint64  { return 2 }
func (*arrLim) BitLen() uint64 { return 24 }
func (*byteLim) Limit() uint64 { return 2 }
func (*u64Lim) Limit() uint64  { return 2 }
func (*u64Lim) BitLen() uint64 { return 64 }
func (*strLim) Limit() uint64  { return 8 }
func (*stLim) Limit() uint64   { return 8 }
func (*stLim) BitLen() uint64  { return 32 }
func (*mapLim) Limit() uint64  { return 8 }

func embeddings() []universe.Entry {
	var out []universe.Entry
	add := func(vs ...interface{}) {
		for _, v := range vs {
			t := reflect.TypeOf(v).Elem()
			out = append(out, universe.Entry{Name: t.String(), T: t})
		}
	}
	add(
		new(struct {
			A uint8
			error
		}),
		new(struct{ error }),
		new(struct {
			fmt.Stringer
			A uint16
		}),
		new(struct {
			A uint16
			eIface
			B L5
		}),
		new(struct {
			A     uint16
			error `ssz:"omit"`
			B     L5
		}),
		new(struct {
			A     uint16
			error `ssz:"squash"`
		}),
		new(struct {
			A uint16
			eInt
		}),
		new(struct {
			A    uint16
			eInt `ssz:"omit"`
		}),
		new(struct {
			A uint16
			eStr
		}),
		new(struct {
			A uint16
			eFunc
		}),
		new(struct {
			A uint16
			eChan
		}),
		new(struct {
			A uint16
			eMap
		}),
		new(struct {
			A uint16
			eFloat
		}),
		new(struct {
			A uint8
			eBytes4
			B uint16
		}),
		new(struct {
			A uint8
			eU16x3
			L5 // an embedded list
		}),
		new(struct {
			A      uint8
			eU16x3 `ssz:"squash"`
		}),
		new(struct {
			A uint8
			nU8
			nBool
			nU64
			bl5
			bv9
		}),
		new(struct {
			A     uint8
			nBool `ssz:"squash"`
		}),
		new(struct {
			A uint8
			bvLong
		}),
		new(struct {
			A uint8
			noLim
		}),
		new(struct{ eEmpty }),
		new(struct {
			A uint8
			eEmpty
			B L5
		}),
		new(struct {
			A uint8
			eTwo
			B L5
		}),
		new(struct {
			A uint8
			eDeep
			B L5
		}),
		new(struct {
			A uint8
			*eTwo
			B L5
		}),
		new(struct {
			A     uint8
			*eTwo `ssz:"squash"`
			B     L5
		}),
		new(struct {
			A     uint8
			*eTwo `ssz:"omit"`
			B     L5
		}),
		new(struct {
			*eDeep
			A uint8
		}),
		new(struct {
			*eEmpty
			A uint8
		}),
		new(struct {
			*nU64
			A uint8
		}),
		new(struct {
			*L5
			A uint8
		}),
		new(struct {
			*bl5
			A uint8
		}),
		new(struct {
			*eInt
			A uint8
		}),
		new(struct {
			*eBad
			A uint8
		}),
		new(struct {
			eBad
			A uint8
		}),
		new(struct {
			A uint8
			eIfaceIn
		}),
		new(struct {
			A        uint8
			eIfaceIn `ssz:"omit"`
		}),
		new(struct {
			A uint8
			*eIfaceIn
		}),
		new(struct {
			A uint8
			sync.Mutex
		}),
		new(struct {
			A          uint8
			sync.Mutex `ssz:"omit"`
			B          uint16
		}),
		new(struct {
			time.Time
			A uint8
		}),
		new(struct {
			A uint8 `ssz:"-"`
			B L5    `ssz:""`
			C uint8 `ssz:","`
			D L5    `ssz:"OMIT"`
			E uint8 `SSZ:"omit"`
			F uint8 `ssz:"omit "`
			G uint8 `ssz:"xomit,omitx,omitempty"`
			H uint8 `ssz:"squashed"`
			I uint8 `json:"x,omit,squash"`
		}),
		new(struct {
			A string `ssz:"-"`
		}),
		new(struct {
			A string `ssz:"omit" json:"a"`
			B uint8  `json:"b" ssz:"a,omit,b"`
			C uint16 `json:"c" yaml:"d"`
		}),
		new(struct {
			A uint8
			B struct { // same names on several levels
				A uint16
				B L5
			} `ssz:"squash"`
			C struct {
				A uint16
				B L5
			}
		}),
		new(struct {
			A eTwo `ssz:"squash"`
			eTwo
			B eTwo
			C *eTwo
		}),
		new(struct {
			a, _, b, _ uint8
			_          L5
			_          struct{ _ uint16 }
			_          [2]byte
			_          *uint32
		}),
		new(arrLim), new(byteLim), new(u64Lim), new(strLim), new(stLim), new(mapLim),
	)
	return out
}
