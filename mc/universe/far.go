package universe

import "reflect"

// Types whose fixed parts, offset tables, element sizes and places in memory are beyond 2^16.

type FarBits [8193]byte

func (*FarBits) BitLen() uint64 { return 65537 }

type FarSquash struct {
	P  uint8
	Sq struct {
		A [70000]byte
		X uint8
		L L[uint16, N3]
	} `ssz:"squash"`
	E FarIn
	Q uint16
}

type FarIn struct {
	A [66000]byte
	B bool
	C L[byte, N5]
}

type FarOmit struct {
	A uint8
	O [70000]byte `ssz:"omit"`
	B uint16
	C L[byte, N5]
}

type FarEmbed struct {
	A uint32
	FarIn
	B uint8
}

var Far = []Entry{
	{"S3[[70000]byte, uint16, L[byte, N5]]", reflect.TypeFor[S3[[70000]byte, uint16, L[byte, N5]]]()},
	{"S3[L[byte, N5], [70000]byte, L[uint16, N3]]", reflect.TypeFor[S3[L[byte, N5], [70000]byte, L[uint16, N3]]]()},
	{"S2[[70000]byte, uint8]", reflect.TypeFor[S2[[70000]byte, uint8]]()},
	{"S3[uint8, S2[[66000]byte, uint8], L[byte, N5]]", reflect.TypeFor[S3[uint8, S2[[66000]byte, uint8], L[byte, N5]]]()},
	{"[9000]uint64", reflect.TypeFor[[9000]uint64]()},
	{"[70000]bool", reflect.TypeFor[[70000]bool]()},
	{"[40000]uint16", reflect.TypeFor[[40000]uint16]()},
	{"[20000]uint32", reflect.TypeFor[[20000]uint32]()},
	{"[70000]byte", reflect.TypeFor[[70000]byte]()},
	{"[9000]*uint64", reflect.TypeFor[[9000]*uint64]()},
	{"[2100][33]byte", reflect.TypeFor[[2100][33]byte]()},
	{"[3][70000]byte", reflect.TypeFor[[3][70000]byte]()},
	{"[3]S2[[40000]byte, L[byte, N5]]", reflect.TypeFor[[3]S2[[40000]byte, L[byte, N5]]]()},
	{"[17000]L[byte, N2]", reflect.TypeFor[[17000]L[byte, N2]]()},
	{"L[[70000]byte, N3]", reflect.TypeFor[L[[70000]byte, N3]]()},
	{"L[S2[[70000]byte, L[uint16, N3]], N3]", reflect.TypeFor[L[S2[[70000]byte, L[uint16, N3]], N3]]()},
	{"L[*S2[[70000]byte, uint16], N3]", reflect.TypeFor[L[*S2[[70000]byte, uint16], N3]]()},
	{"FarBits", reflect.TypeFor[FarBits]()},
	{"S3[FarBits, L[FarBits, N3], uint8]", reflect.TypeFor[S3[FarBits, L[FarBits, N3], uint8]]()},
	{"FarSquash", reflect.TypeFor[FarSquash]()},
	{"FarEmbed", reflect.TypeFor[FarEmbed]()},
	{"FarOmit", reflect.TypeFor[FarOmit]()},
}
