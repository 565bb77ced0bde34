// Code generated by tools/gen_universe.py. DO NOT EDIT.

package universe

import "reflect"

type N0 struct{}

func (N0) V() uint64 { return 0 }

type N1 struct{}

func (N1) V() uint64 { return 1 }

type N2 struct{}

func (N2) V() uint64 { return 2 }

type N3 struct{}

func (N3) V() uint64 { return 3 }

type N4 struct{}

func (N4) V() uint64 { return 4 }

type N5 struct{}

func (N5) V() uint64 { return 5 }

type N6 struct{}

func (N6) V() uint64 { return 6 }

type N7 struct{}

func (N7) V() uint64 { return 7 }

type N8 struct{}

func (N8) V() uint64 { return 8 }

type N9 struct{}

func (N9) V() uint64 { return 9 }

type N10 struct{}

func (N10) V() uint64 { return 10 }

type N11 struct{}

func (N11) V() uint64 { return 11 }

type N12 struct{}

func (N12) V() uint64 { return 12 }

type N15 struct{}

func (N15) V() uint64 { return 15 }

type N16 struct{}

func (N16) V() uint64 { return 16 }

type N17 struct{}

func (N17) V() uint64 { return 17 }

type N31 struct{}

func (N31) V() uint64 { return 31 }

type N32 struct{}

func (N32) V() uint64 { return 32 }

type N33 struct{}

func (N33) V() uint64 { return 33 }

type N34 struct{}

func (N34) V() uint64 { return 34 }

type N40 struct{}

func (N40) V() uint64 { return 40 }

type N63 struct{}

func (N63) V() uint64 { return 63 }

type N64 struct{}

func (N64) V() uint64 { return 64 }

type N65 struct{}

func (N65) V() uint64 { return 65 }

type N96 struct{}

func (N96) V() uint64 { return 96 }

type N100 struct{}

func (N100) V() uint64 { return 100 }

type N127 struct{}

func (N127) V() uint64 { return 127 }

type N128 struct{}

func (N128) V() uint64 { return 128 }

type N129 struct{}

func (N129) V() uint64 { return 129 }

type N255 struct{}

func (N255) V() uint64 { return 255 }

type N256 struct{}

func (N256) V() uint64 { return 256 }

type N257 struct{}

func (N257) V() uint64 { return 257 }

type N300 struct{}

func (N300) V() uint64 { return 300 }

type N504 struct{}

func (N504) V() uint64 { return 504 }

type N505 struct{}

func (N505) V() uint64 { return 505 }

type N511 struct{}

func (N511) V() uint64 { return 511 }

type N512 struct{}

func (N512) V() uint64 { return 512 }

type N513 struct{}

func (N513) V() uint64 { return 513 }

type N600 struct{}

func (N600) V() uint64 { return 600 }

type N1000 struct{}

func (N1000) V() uint64 { return 1000 }

type N1024 struct{}

func (N1024) V() uint64 { return 1024 }

type N2048 struct{}

func (N2048) V() uint64 { return 2048 }

type N70000 struct{}

func (N70000) V() uint64 { return 70000 }

type N1048576 struct{}

func (N1048576) V() uint64 { return 1048576 }

type N33554432 struct{}

func (N33554432) V() uint64 { return 33554432 }

type N67108864 struct{}

func (N67108864) V() uint64 { return 67108864 }

type N4294967296 struct{}

func (N4294967296) V() uint64 { return 4294967296 }

type N1099511627776 struct{}

func (N1099511627776) V() uint64 { return 1099511627776 }

type N1099511627777 struct{}

func (N1099511627777) V() uint64 { return 1099511627777 }

type Bv1 [1]byte

func (*Bv1) BitLen() uint64 { return 1 }

type Bv2 [1]byte

func (*Bv2) BitLen() uint64 { return 2 }

type Bv3 [1]byte

func (*Bv3) BitLen() uint64 { return 3 }

type Bv4 [1]byte

func (*Bv4) BitLen() uint64 { return 4 }

type Bv5 [1]byte

func (*Bv5) BitLen() uint64 { return 5 }

type Bv6 [1]byte

func (*Bv6) BitLen() uint64 { return 6 }

type Bv7 [1]byte

func (*Bv7) BitLen() uint64 { return 7 }

type Bv8 [1]byte

func (*Bv8) BitLen() uint64 { return 8 }

type Bv9 [2]byte

func (*Bv9) BitLen() uint64 { return 9 }

type Bv10 [2]byte

func (*Bv10) BitLen() uint64 { return 10 }

type Bv11 [2]byte

func (*Bv11) BitLen() uint64 { return 11 }

type Bv12 [2]byte

func (*Bv12) BitLen() uint64 { return 12 }

type Bv13 [2]byte

func (*Bv13) BitLen() uint64 { return 13 }

type Bv14 [2]byte

func (*Bv14) BitLen() uint64 { return 14 }

type Bv15 [2]byte

func (*Bv15) BitLen() uint64 { return 15 }

type Bv16 [2]byte

func (*Bv16) BitLen() uint64 { return 16 }

type Bv17 [3]byte

func (*Bv17) BitLen() uint64 { return 17 }

type Bv23 [3]byte

func (*Bv23) BitLen() uint64 { return 23 }

type Bv24 [3]byte

func (*Bv24) BitLen() uint64 { return 24 }

type Bv25 [4]byte

func (*Bv25) BitLen() uint64 { return 25 }

type Bv31 [4]byte

func (*Bv31) BitLen() uint64 { return 31 }

type Bv32 [4]byte

func (*Bv32) BitLen() uint64 { return 32 }

type Bv33 [5]byte

func (*Bv33) BitLen() uint64 { return 33 }

type Bv63 [8]byte

func (*Bv63) BitLen() uint64 { return 63 }

type Bv64 [8]byte

func (*Bv64) BitLen() uint64 { return 64 }

type Bv65 [9]byte

func (*Bv65) BitLen() uint64 { return 65 }

type Bv127 [16]byte

func (*Bv127) BitLen() uint64 { return 127 }

type Bv128 [16]byte

func (*Bv128) BitLen() uint64 { return 128 }

type Bv129 [17]byte

func (*Bv129) BitLen() uint64 { return 129 }

type Bv247 [31]byte

func (*Bv247) BitLen() uint64 { return 247 }

type Bv248 [31]byte

func (*Bv248) BitLen() uint64 { return 248 }

type Bv249 [32]byte

func (*Bv249) BitLen() uint64 { return 249 }

type Bv255 [32]byte

func (*Bv255) BitLen() uint64 { return 255 }

type Bv256 [32]byte

func (*Bv256) BitLen() uint64 { return 256 }

type Bv257 [33]byte

func (*Bv257) BitLen() uint64 { return 257 }

type Bv263 [33]byte

func (*Bv263) BitLen() uint64 { return 263 }

type Bv264 [33]byte

func (*Bv264) BitLen() uint64 { return 264 }

type Bv265 [34]byte

func (*Bv265) BitLen() uint64 { return 265 }

type Bv503 [63]byte

func (*Bv503) BitLen() uint64 { return 503 }

type Bv504 [63]byte

func (*Bv504) BitLen() uint64 { return 504 }

type Bv505 [64]byte

func (*Bv505) BitLen() uint64 { return 505 }

type Bv511 [64]byte

func (*Bv511) BitLen() uint64 { return 511 }

type Bv512 [64]byte

func (*Bv512) BitLen() uint64 { return 512 }

type Bv513 [65]byte

func (*Bv513) BitLen() uint64 { return 513 }

var Leaves = []Entry{
	{"bool", reflect.TypeFor[bool]()},
	{"uint8", reflect.TypeFor[uint8]()},
	{"uint16", reflect.TypeFor[uint16]()},
	{"uint32", reflect.TypeFor[uint32]()},
	{"uint64", reflect.TypeFor[uint64]()},
	{"[0]byte", reflect.TypeFor[[0]byte]()},
	{"[1]byte", reflect.TypeFor[[1]byte]()},
	{"[2]byte", reflect.TypeFor[[2]byte]()},
	{"[3]byte", reflect.TypeFor[[3]byte]()},
	{"[4]byte", reflect.TypeFor[[4]byte]()},
	{"[5]byte", reflect.TypeFor[[5]byte]()},
	{"[7]byte", reflect.TypeFor[[7]byte]()},
	{"[8]byte", reflect.TypeFor[[8]byte]()},
	{"[31]byte", reflect.TypeFor[[31]byte]()},
	{"[32]byte", reflect.TypeFor[[32]byte]()},
	{"[33]byte", reflect.TypeFor[[33]byte]()},
	{"[48]byte", reflect.TypeFor[[48]byte]()},
	{"[63]byte", reflect.TypeFor[[63]byte]()},
	{"[64]byte", reflect.TypeFor[[64]byte]()},
	{"[65]byte", reflect.TypeFor[[65]byte]()},
	{"[96]byte", reflect.TypeFor[[96]byte]()},
	{"[97]byte", reflect.TypeFor[[97]byte]()},
	{"[128]byte", reflect.TypeFor[[128]byte]()},
	{"[129]byte", reflect.TypeFor[[129]byte]()},
	{"[257]byte", reflect.TypeFor[[257]byte]()},
	{"L[byte, N0]", reflect.TypeFor[L[byte, N0]]()},
	{"L[byte, N1]", reflect.TypeFor[L[byte, N1]]()},
	{"L[byte, N2]", reflect.TypeFor[L[byte, N2]]()},
	{"L[byte, N3]", reflect.TypeFor[L[byte, N3]]()},
	{"L[byte, N5]", reflect.TypeFor[L[byte, N5]]()},
	{"L[byte, N8]", reflect.TypeFor[L[byte, N8]]()},
	{"L[byte, N31]", reflect.TypeFor[L[byte, N31]]()},
	{"L[byte, N32]", reflect.TypeFor[L[byte, N32]]()},
	{"L[byte, N33]", reflect.TypeFor[L[byte, N33]]()},
	{"L[byte, N63]", reflect.TypeFor[L[byte, N63]]()},
	{"L[byte, N64]", reflect.TypeFor[L[byte, N64]]()},
	{"L[byte, N65]", reflect.TypeFor[L[byte, N65]]()},
	{"L[byte, N100]", reflect.TypeFor[L[byte, N100]]()},
	{"L[byte, N257]", reflect.TypeFor[L[byte, N257]]()},
	{"L[byte, N300]", reflect.TypeFor[L[byte, N300]]()},
	{"L[byte, N1024]", reflect.TypeFor[L[byte, N1024]]()},
	{"L[byte, N1048576]", reflect.TypeFor[L[byte, N1048576]]()},
	{"L[byte, N1099511627776]", reflect.TypeFor[L[byte, N1099511627776]]()},
	{"Bv1", reflect.TypeFor[Bv1]()},
	{"Bv2", reflect.TypeFor[Bv2]()},
	{"Bv3", reflect.TypeFor[Bv3]()},
	{"Bv4", reflect.TypeFor[Bv4]()},
	{"Bv5", reflect.TypeFor[Bv5]()},
	{"Bv6", reflect.TypeFor[Bv6]()},
	{"Bv7", reflect.TypeFor[Bv7]()},
	{"Bv8", reflect.TypeFor[Bv8]()},
	{"Bv9", reflect.TypeFor[Bv9]()},
	{"Bv10", reflect.TypeFor[Bv10]()},
	{"Bv11", reflect.TypeFor[Bv11]()},
	{"Bv12", reflect.TypeFor[Bv12]()},
	{"Bv13", reflect.TypeFor[Bv13]()},
	{"Bv14", reflect.TypeFor[Bv14]()},
	{"Bv15", reflect.TypeFor[Bv15]()},
	{"Bv16", reflect.TypeFor[Bv16]()},
	{"Bv17", reflect.TypeFor[Bv17]()},
	{"Bv23", reflect.TypeFor[Bv23]()},
	{"Bv24", reflect.TypeFor[Bv24]()},
	{"Bv25", reflect.TypeFor[Bv25]()},
	{"Bv31", reflect.TypeFor[Bv31]()},
	{"Bv32", reflect.TypeFor[Bv32]()},
	{"Bv33", reflect.TypeFor[Bv33]()},
	{"Bv63", reflect.TypeFor[Bv63]()},
	{"Bv64", reflect.TypeFor[Bv64]()},
	{"Bv65", reflect.TypeFor[Bv65]()},
	{"Bv127", reflect.TypeFor[Bv127]()},
	{"Bv128", reflect.TypeFor[Bv128]()},
	{"Bv129", reflect.TypeFor[Bv129]()},
	{"Bv247", reflect.TypeFor[Bv247]()},
	{"Bv248", reflect.TypeFor[Bv248]()},
	{"Bv249", reflect.TypeFor[Bv249]()},
	{"Bv255", reflect.TypeFor[Bv255]()},
	{"Bv256", reflect.TypeFor[Bv256]()},
	{"Bv257", reflect.TypeFor[Bv257]()},
	{"Bv263", reflect.TypeFor[Bv263]()},
	{"Bv264", reflect.TypeFor[Bv264]()},
	{"Bv265", reflect.TypeFor[Bv265]()},
	{"Bv503", reflect.TypeFor[Bv503]()},
	{"Bv504", reflect.TypeFor[Bv504]()},
	{"Bv505", reflect.TypeFor[Bv505]()},
	{"Bv511", reflect.TypeFor[Bv511]()},
	{"Bv512", reflect.TypeFor[Bv512]()},
	{"Bv513", reflect.TypeFor[Bv513]()},
	{"BL[N0]", reflect.TypeFor[BL[N0]]()},
	{"BL[N1]", reflect.TypeFor[BL[N1]]()},
	{"BL[N2]", reflect.TypeFor[BL[N2]]()},
	{"BL[N3]", reflect.TypeFor[BL[N3]]()},
	{"BL[N4]", reflect.TypeFor[BL[N4]]()},
	{"BL[N5]", reflect.TypeFor[BL[N5]]()},
	{"BL[N6]", reflect.TypeFor[BL[N6]]()},
	{"BL[N7]", reflect.TypeFor[BL[N7]]()},
	{"BL[N8]", reflect.TypeFor[BL[N8]]()},
	{"BL[N9]", reflect.TypeFor[BL[N9]]()},
	{"BL[N10]", reflect.TypeFor[BL[N10]]()},
	{"BL[N15]", reflect.TypeFor[BL[N15]]()},
	{"BL[N16]", reflect.TypeFor[BL[N16]]()},
	{"BL[N17]", reflect.TypeFor[BL[N17]]()},
	{"BL[N31]", reflect.TypeFor[BL[N31]]()},
	{"BL[N32]", reflect.TypeFor[BL[N32]]()},
	{"BL[N33]", reflect.TypeFor[BL[N33]]()},
	{"BL[N63]", reflect.TypeFor[BL[N63]]()},
	{"BL[N64]", reflect.TypeFor[BL[N64]]()},
	{"BL[N65]", reflect.TypeFor[BL[N65]]()},
	{"BL[N127]", reflect.TypeFor[BL[N127]]()},
	{"BL[N128]", reflect.TypeFor[BL[N128]]()},
	{"BL[N255]", reflect.TypeFor[BL[N255]]()},
	{"BL[N256]", reflect.TypeFor[BL[N256]]()},
	{"BL[N257]", reflect.TypeFor[BL[N257]]()},
	{"BL[N504]", reflect.TypeFor[BL[N504]]()},
	{"BL[N511]", reflect.TypeFor[BL[N511]]()},
	{"BL[N512]", reflect.TypeFor[BL[N512]]()},
	{"BL[N513]", reflect.TypeFor[BL[N513]]()},
	{"BL[N600]", reflect.TypeFor[BL[N600]]()},
	{"BL[N2048]", reflect.TypeFor[BL[N2048]]()},
	{"BL[N1099511627776]", reflect.TypeFor[BL[N1099511627776]]()},
	{"[0]bool", reflect.TypeFor[[0]bool]()},
	{"[1]bool", reflect.TypeFor[[1]bool]()},
	{"[2]bool", reflect.TypeFor[[2]bool]()},
	{"[3]bool", reflect.TypeFor[[3]bool]()},
	{"[4]bool", reflect.TypeFor[[4]bool]()},
	{"[5]bool", reflect.TypeFor[[5]bool]()},
	{"[8]bool", reflect.TypeFor[[8]bool]()},
	{"[9]bool", reflect.TypeFor[[9]bool]()},
	{"[15]bool", reflect.TypeFor[[15]bool]()},
	{"[16]bool", reflect.TypeFor[[16]bool]()},
	{"[17]bool", reflect.TypeFor[[17]bool]()},
	{"[31]bool", reflect.TypeFor[[31]bool]()},
	{"[32]bool", reflect.TypeFor[[32]bool]()},
	{"[33]bool", reflect.TypeFor[[33]bool]()},
	{"[64]bool", reflect.TypeFor[[64]bool]()},
	{"[65]bool", reflect.TypeFor[[65]bool]()},
	{"L[bool, N0]", reflect.TypeFor[L[bool, N0]]()},
	{"L[bool, N1]", reflect.TypeFor[L[bool, N1]]()},
	{"L[bool, N2]", reflect.TypeFor[L[bool, N2]]()},
	{"L[bool, N3]", reflect.TypeFor[L[bool, N3]]()},
	{"L[bool, N4]", reflect.TypeFor[L[bool, N4]]()},
	{"L[bool, N5]", reflect.TypeFor[L[bool, N5]]()},
	{"L[bool, N7]", reflect.TypeFor[L[bool, N7]]()},
	{"L[bool, N8]", reflect.TypeFor[L[bool, N8]]()},
	{"L[bool, N9]", reflect.TypeFor[L[bool, N9]]()},
	{"L[bool, N15]", reflect.TypeFor[L[bool, N15]]()},
	{"L[bool, N16]", reflect.TypeFor[L[bool, N16]]()},
	{"L[bool, N17]", reflect.TypeFor[L[bool, N17]]()},
	{"L[bool, N31]", reflect.TypeFor[L[bool, N31]]()},
	{"L[bool, N32]", reflect.TypeFor[L[bool, N32]]()},
	{"L[bool, N33]", reflect.TypeFor[L[bool, N33]]()},
	{"L[bool, N64]", reflect.TypeFor[L[bool, N64]]()},
	{"L[bool, N65]", reflect.TypeFor[L[bool, N65]]()},
	{"L[bool, N100]", reflect.TypeFor[L[bool, N100]]()},
	{"L[bool, N257]", reflect.TypeFor[L[bool, N257]]()},
	{"L[bool, N1099511627776]", reflect.TypeFor[L[bool, N1099511627776]]()},
	{"[0]uint16", reflect.TypeFor[[0]uint16]()},
	{"[1]uint16", reflect.TypeFor[[1]uint16]()},
	{"[2]uint16", reflect.TypeFor[[2]uint16]()},
	{"[3]uint16", reflect.TypeFor[[3]uint16]()},
	{"[4]uint16", reflect.TypeFor[[4]uint16]()},
	{"[5]uint16", reflect.TypeFor[[5]uint16]()},
	{"[8]uint16", reflect.TypeFor[[8]uint16]()},
	{"[9]uint16", reflect.TypeFor[[9]uint16]()},
	{"[15]uint16", reflect.TypeFor[[15]uint16]()},
	{"[16]uint16", reflect.TypeFor[[16]uint16]()},
	{"[17]uint16", reflect.TypeFor[[17]uint16]()},
	{"[31]uint16", reflect.TypeFor[[31]uint16]()},
	{"[32]uint16", reflect.TypeFor[[32]uint16]()},
	{"[33]uint16", reflect.TypeFor[[33]uint16]()},
	{"[64]uint16", reflect.TypeFor[[64]uint16]()},
	{"[65]uint16", reflect.TypeFor[[65]uint16]()},
	{"L[uint16, N0]", reflect.TypeFor[L[uint16, N0]]()},
	{"L[uint16, N1]", reflect.TypeFor[L[uint16, N1]]()},
	{"L[uint16, N2]", reflect.TypeFor[L[uint16, N2]]()},
	{"L[uint16, N3]", reflect.TypeFor[L[uint16, N3]]()},
	{"L[uint16, N4]", reflect.TypeFor[L[uint16, N4]]()},
	{"L[uint16, N5]", reflect.TypeFor[L[uint16, N5]]()},
	{"L[uint16, N7]", reflect.TypeFor[L[uint16, N7]]()},
	{"L[uint16, N8]", reflect.TypeFor[L[uint16, N8]]()},
	{"L[uint16, N9]", reflect.TypeFor[L[uint16, N9]]()},
	{"L[uint16, N15]", reflect.TypeFor[L[uint16, N15]]()},
	{"L[uint16, N16]", reflect.TypeFor[L[uint16, N16]]()},
	{"L[uint16, N17]", reflect.TypeFor[L[uint16, N17]]()},
	{"L[uint16, N31]", reflect.TypeFor[L[uint16, N31]]()},
	{"L[uint16, N32]", reflect.TypeFor[L[uint16, N32]]()},
	{"L[uint16, N33]", reflect.TypeFor[L[uint16, N33]]()},
	{"L[uint16, N64]", reflect.TypeFor[L[uint16, N64]]()},
	{"L[uint16, N65]", reflect.TypeFor[L[uint16, N65]]()},
	{"L[uint16, N100]", reflect.TypeFor[L[uint16, N100]]()},
	{"L[uint16, N257]", reflect.TypeFor[L[uint16, N257]]()},
	{"L[uint16, N1099511627776]", reflect.TypeFor[L[uint16, N1099511627776]]()},
	{"[0]uint32", reflect.TypeFor[[0]uint32]()},
	{"[1]uint32", reflect.TypeFor[[1]uint32]()},
	{"[2]uint32", reflect.TypeFor[[2]uint32]()},
	{"[3]uint32", reflect.TypeFor[[3]uint32]()},
	{"[4]uint32", reflect.TypeFor[[4]uint32]()},
	{"[5]uint32", reflect.TypeFor[[5]uint32]()},
	{"[8]uint32", reflect.TypeFor[[8]uint32]()},
	{"[9]uint32", reflect.TypeFor[[9]uint32]()},
	{"[15]uint32", reflect.TypeFor[[15]uint32]()},
	{"[16]uint32", reflect.TypeFor[[16]uint32]()},
	{"[17]uint32", reflect.TypeFor[[17]uint32]()},
	{"[31]uint32", reflect.TypeFor[[31]uint32]()},
	{"[32]uint32", reflect.TypeFor[[32]uint32]()},
	{"[33]uint32", reflect.TypeFor[[33]uint32]()},
	{"[64]uint32", reflect.TypeFor[[64]uint32]()},
	{"[65]uint32", reflect.TypeFor[[65]uint32]()},
	{"L[uint32, N0]", reflect.TypeFor[L[uint32, N0]]()},
	{"L[uint32, N1]", reflect.TypeFor[L[uint32, N1]]()},
	{"L[uint32, N2]", reflect.TypeFor[L[uint32, N2]]()},
	{"L[uint32, N3]", reflect.TypeFor[L[uint32, N3]]()},
	{"L[uint32, N4]", reflect.TypeFor[L[uint32, N4]]()},
	{"L[uint32, N5]", reflect.TypeFor[L[uint32, N5]]()},
	{"L[uint32, N7]", reflect.TypeFor[L[uint32, N7]]()},
	{"L[uint32, N8]", reflect.TypeFor[L[uint32, N8]]()},
	{"L[uint32, N9]", reflect.TypeFor[L[uint32, N9]]()},
	{"L[uint32, N15]", reflect.TypeFor[L[uint32, N15]]()},
	{"L[uint32, N16]", reflect.TypeFor[L[uint32, N16]]()},
	{"L[uint32, N17]", reflect.TypeFor[L[uint32, N17]]()},
	{"L[uint32, N31]", reflect.TypeFor[L[uint32, N31]]()},
	{"L[uint32, N32]", reflect.TypeFor[L[uint32, N32]]()},
	{"L[uint32, N33]", reflect.TypeFor[L[uint32, N33]]()},
	{"L[uint32, N64]", reflect.TypeFor[L[uint32, N64]]()},
	{"L[uint32, N65]", reflect.TypeFor[L[uint32, N65]]()},
	{"L[uint32, N100]", reflect.TypeFor[L[uint32, N100]]()},
	{"L[uint32, N257]", reflect.TypeFor[L[uint32, N257]]()},
	{"L[uint32, N1099511627776]", reflect.TypeFor[L[uint32, N1099511627776]]()},
	{"[0]uint64", reflect.TypeFor[[0]uint64]()},
	{"[1]uint64", reflect.TypeFor[[1]uint64]()},
	{"[2]uint64", reflect.TypeFor[[2]uint64]()},
	{"[3]uint64", reflect.TypeFor[[3]uint64]()},
	{"[4]uint64", reflect.TypeFor[[4]uint64]()},
	{"[5]uint64", reflect.TypeFor[[5]uint64]()},
	{"[8]uint64", reflect.TypeFor[[8]uint64]()},
	{"[9]uint64", reflect.TypeFor[[9]uint64]()},
	{"[15]uint64", reflect.TypeFor[[15]uint64]()},
	{"[16]uint64", reflect.TypeFor[[16]uint64]()},
	{"[17]uint64", reflect.TypeFor[[17]uint64]()},
	{"[31]uint64", reflect.TypeFor[[31]uint64]()},
	{"[32]uint64", reflect.TypeFor[[32]uint64]()},
	{"[33]uint64", reflect.TypeFor[[33]uint64]()},
	{"[64]uint64", reflect.TypeFor[[64]uint64]()},
	{"[65]uint64", reflect.TypeFor[[65]uint64]()},
	{"L[uint64, N0]", reflect.TypeFor[L[uint64, N0]]()},
	{"L[uint64, N1]", reflect.TypeFor[L[uint64, N1]]()},
	{"L[uint64, N2]", reflect.TypeFor[L[uint64, N2]]()},
	{"L[uint64, N3]", reflect.TypeFor[L[uint64, N3]]()},
	{"L[uint64, N4]", reflect.TypeFor[L[uint64, N4]]()},
	{"L[uint64, N5]", reflect.TypeFor[L[uint64, N5]]()},
	{"L[uint64, N7]", reflect.TypeFor[L[uint64, N7]]()},
	{"L[uint64, N8]", reflect.TypeFor[L[uint64, N8]]()},
	{"L[uint64, N9]", reflect.TypeFor[L[uint64, N9]]()},
	{"L[uint64, N15]", reflect.TypeFor[L[uint64, N15]]()},
	{"L[uint64, N16]", reflect.TypeFor[L[uint64, N16]]()},
	{"L[uint64, N17]", reflect.TypeFor[L[uint64, N17]]()},
	{"L[uint64, N31]", reflect.TypeFor[L[uint64, N31]]()},
	{"L[uint64, N32]", reflect.TypeFor[L[uint64, N32]]()},
	{"L[uint64, N33]", reflect.TypeFor[L[uint64, N33]]()},
	{"L[uint64, N64]", reflect.TypeFor[L[uint64, N64]]()},
	{"L[uint64, N65]", reflect.TypeFor[L[uint64, N65]]()},
	{"L[uint64, N100]", reflect.TypeFor[L[uint64, N100]]()},
	{"L[uint64, N257]", reflect.TypeFor[L[uint64, N257]]()},
	{"L[uint64, N1099511627776]", reflect.TypeFor[L[uint64, N1099511627776]]()},
}

var Level2 = []Entry{
	{"L[[3]byte, N0]", reflect.TypeFor[L[[3]byte, N0]]()},
	{"L[[3]byte, N1]", reflect.TypeFor[L[[3]byte, N1]]()},
	{"L[[3]byte, N2]", reflect.TypeFor[L[[3]byte, N2]]()},
	{"L[[3]byte, N3]", reflect.TypeFor[L[[3]byte, N3]]()},
	{"L[[3]byte, N5]", reflect.TypeFor[L[[3]byte, N5]]()},
	{"L[[3]byte, N33]", reflect.TypeFor[L[[3]byte, N33]]()},
	{"[0][3]byte", reflect.TypeFor[[0][3]byte]()},
	{"[1][3]byte", reflect.TypeFor[[1][3]byte]()},
	{"[2][3]byte", reflect.TypeFor[[2][3]byte]()},
	{"[3][3]byte", reflect.TypeFor[[3][3]byte]()},
	{"[5][3]byte", reflect.TypeFor[[5][3]byte]()},
	{"*[3]byte", reflect.TypeFor[*[3]byte]()},
	{"S1[[3]byte]", reflect.TypeFor[S1[[3]byte]]()},
	{"S3[uint8, [3]byte, uint16]", reflect.TypeFor[S3[uint8, [3]byte, uint16]]()},
	{"S2[[3]byte, [3]byte]", reflect.TypeFor[S2[[3]byte, [3]byte]]()},
	{"S4[L[byte, N3], [3]byte, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], [3]byte, L[byte, N2], uint32]]()},
	{"L[[32]byte, N0]", reflect.TypeFor[L[[32]byte, N0]]()},
	{"L[[32]byte, N1]", reflect.TypeFor[L[[32]byte, N1]]()},
	{"L[[32]byte, N2]", reflect.TypeFor[L[[32]byte, N2]]()},
	{"L[[32]byte, N3]", reflect.TypeFor[L[[32]byte, N3]]()},
	{"L[[32]byte, N5]", reflect.TypeFor[L[[32]byte, N5]]()},
	{"L[[32]byte, N33]", reflect.TypeFor[L[[32]byte, N33]]()},
	{"[0][32]byte", reflect.TypeFor[[0][32]byte]()},
	{"[1][32]byte", reflect.TypeFor[[1][32]byte]()},
	{"[2][32]byte", reflect.TypeFor[[2][32]byte]()},
	{"[3][32]byte", reflect.TypeFor[[3][32]byte]()},
	{"[5][32]byte", reflect.TypeFor[[5][32]byte]()},
	{"*[32]byte", reflect.TypeFor[*[32]byte]()},
	{"S1[[32]byte]", reflect.TypeFor[S1[[32]byte]]()},
	{"S3[uint8, [32]byte, uint16]", reflect.TypeFor[S3[uint8, [32]byte, uint16]]()},
	{"S2[[32]byte, [32]byte]", reflect.TypeFor[S2[[32]byte, [32]byte]]()},
	{"S4[L[byte, N3], [32]byte, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], [32]byte, L[byte, N2], uint32]]()},
	{"L[[33]byte, N0]", reflect.TypeFor[L[[33]byte, N0]]()},
	{"L[[33]byte, N1]", reflect.TypeFor[L[[33]byte, N1]]()},
	{"L[[33]byte, N2]", reflect.TypeFor[L[[33]byte, N2]]()},
	{"L[[33]byte, N3]", reflect.TypeFor[L[[33]byte, N3]]()},
	{"L[[33]byte, N5]", reflect.TypeFor[L[[33]byte, N5]]()},
	{"L[[33]byte, N33]", reflect.TypeFor[L[[33]byte, N33]]()},
	{"[0][33]byte", reflect.TypeFor[[0][33]byte]()},
	{"[1][33]byte", reflect.TypeFor[[1][33]byte]()},
	{"[2][33]byte", reflect.TypeFor[[2][33]byte]()},
	{"[3][33]byte", reflect.TypeFor[[3][33]byte]()},
	{"[5][33]byte", reflect.TypeFor[[5][33]byte]()},
	{"*[33]byte", reflect.TypeFor[*[33]byte]()},
	{"S1[[33]byte]", reflect.TypeFor[S1[[33]byte]]()},
	{"S3[uint8, [33]byte, uint16]", reflect.TypeFor[S3[uint8, [33]byte, uint16]]()},
	{"S2[[33]byte, [33]byte]", reflect.TypeFor[S2[[33]byte, [33]byte]]()},
	{"S4[L[byte, N3], [33]byte, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], [33]byte, L[byte, N2], uint32]]()},
	{"L[L[byte, N5], N0]", reflect.TypeFor[L[L[byte, N5], N0]]()},
	{"L[L[byte, N5], N1]", reflect.TypeFor[L[L[byte, N5], N1]]()},
	{"L[L[byte, N5], N2]", reflect.TypeFor[L[L[byte, N5], N2]]()},
	{"L[L[byte, N5], N3]", reflect.TypeFor[L[L[byte, N5], N3]]()},
	{"L[L[byte, N5], N5]", reflect.TypeFor[L[L[byte, N5], N5]]()},
	{"L[L[byte, N5], N33]", reflect.TypeFor[L[L[byte, N5], N33]]()},
	{"[0]L[byte, N5]", reflect.TypeFor[[0]L[byte, N5]]()},
	{"[1]L[byte, N5]", reflect.TypeFor[[1]L[byte, N5]]()},
	{"[2]L[byte, N5]", reflect.TypeFor[[2]L[byte, N5]]()},
	{"[3]L[byte, N5]", reflect.TypeFor[[3]L[byte, N5]]()},
	{"[5]L[byte, N5]", reflect.TypeFor[[5]L[byte, N5]]()},
	{"*L[byte, N5]", reflect.TypeFor[*L[byte, N5]]()},
	{"S1[L[byte, N5]]", reflect.TypeFor[S1[L[byte, N5]]]()},
	{"S3[uint8, L[byte, N5], uint16]", reflect.TypeFor[S3[uint8, L[byte, N5], uint16]]()},
	{"S2[L[byte, N5], L[byte, N5]]", reflect.TypeFor[S2[L[byte, N5], L[byte, N5]]]()},
	{"S4[L[byte, N3], L[byte, N5], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], L[byte, N5], L[byte, N2], uint32]]()},
	{"L[Bv9, N0]", reflect.TypeFor[L[Bv9, N0]]()},
	{"L[Bv9, N1]", reflect.TypeFor[L[Bv9, N1]]()},
	{"L[Bv9, N2]", reflect.TypeFor[L[Bv9, N2]]()},
	{"L[Bv9, N3]", reflect.TypeFor[L[Bv9, N3]]()},
	{"L[Bv9, N5]", reflect.TypeFor[L[Bv9, N5]]()},
	{"L[Bv9, N33]", reflect.TypeFor[L[Bv9, N33]]()},
	{"[0]Bv9", reflect.TypeFor[[0]Bv9]()},
	{"[1]Bv9", reflect.TypeFor[[1]Bv9]()},
	{"[2]Bv9", reflect.TypeFor[[2]Bv9]()},
	{"[3]Bv9", reflect.TypeFor[[3]Bv9]()},
	{"[5]Bv9", reflect.TypeFor[[5]Bv9]()},
	{"*Bv9", reflect.TypeFor[*Bv9]()},
	{"S1[Bv9]", reflect.TypeFor[S1[Bv9]]()},
	{"S3[uint8, Bv9, uint16]", reflect.TypeFor[S3[uint8, Bv9, uint16]]()},
	{"S2[Bv9, Bv9]", reflect.TypeFor[S2[Bv9, Bv9]]()},
	{"S4[L[byte, N3], Bv9, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], Bv9, L[byte, N2], uint32]]()},
	{"L[BL[N9], N0]", reflect.TypeFor[L[BL[N9], N0]]()},
	{"L[BL[N9], N1]", reflect.TypeFor[L[BL[N9], N1]]()},
	{"L[BL[N9], N2]", reflect.TypeFor[L[BL[N9], N2]]()},
	{"L[BL[N9], N3]", reflect.TypeFor[L[BL[N9], N3]]()},
	{"L[BL[N9], N5]", reflect.TypeFor[L[BL[N9], N5]]()},
	{"L[BL[N9], N33]", reflect.TypeFor[L[BL[N9], N33]]()},
	{"[0]BL[N9]", reflect.TypeFor[[0]BL[N9]]()},
	{"[1]BL[N9]", reflect.TypeFor[[1]BL[N9]]()},
	{"[2]BL[N9]", reflect.TypeFor[[2]BL[N9]]()},
	{"[3]BL[N9]", reflect.TypeFor[[3]BL[N9]]()},
	{"[5]BL[N9]", reflect.TypeFor[[5]BL[N9]]()},
	{"*BL[N9]", reflect.TypeFor[*BL[N9]]()},
	{"S1[BL[N9]]", reflect.TypeFor[S1[BL[N9]]]()},
	{"S3[uint8, BL[N9], uint16]", reflect.TypeFor[S3[uint8, BL[N9], uint16]]()},
	{"S2[BL[N9], BL[N9]]", reflect.TypeFor[S2[BL[N9], BL[N9]]]()},
	{"S4[L[byte, N3], BL[N9], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], BL[N9], L[byte, N2], uint32]]()},
	{"L[[2]uint16, N0]", reflect.TypeFor[L[[2]uint16, N0]]()},
	{"L[[2]uint16, N1]", reflect.TypeFor[L[[2]uint16, N1]]()},
	{"L[[2]uint16, N2]", reflect.TypeFor[L[[2]uint16, N2]]()},
	{"L[[2]uint16, N3]", reflect.TypeFor[L[[2]uint16, N3]]()},
	{"L[[2]uint16, N5]", reflect.TypeFor[L[[2]uint16, N5]]()},
	{"L[[2]uint16, N33]", reflect.TypeFor[L[[2]uint16, N33]]()},
	{"[0][2]uint16", reflect.TypeFor[[0][2]uint16]()},
	{"[1][2]uint16", reflect.TypeFor[[1][2]uint16]()},
	{"[2][2]uint16", reflect.TypeFor[[2][2]uint16]()},
	{"[3][2]uint16", reflect.TypeFor[[3][2]uint16]()},
	{"[5][2]uint16", reflect.TypeFor[[5][2]uint16]()},
	{"*[2]uint16", reflect.TypeFor[*[2]uint16]()},
	{"S1[[2]uint16]", reflect.TypeFor[S1[[2]uint16]]()},
	{"S3[uint8, [2]uint16, uint16]", reflect.TypeFor[S3[uint8, [2]uint16, uint16]]()},
	{"S2[[2]uint16, [2]uint16]", reflect.TypeFor[S2[[2]uint16, [2]uint16]]()},
	{"S4[L[byte, N3], [2]uint16, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], [2]uint16, L[byte, N2], uint32]]()},
	{"L[[3]bool, N0]", reflect.TypeFor[L[[3]bool, N0]]()},
	{"L[[3]bool, N1]", reflect.TypeFor[L[[3]bool, N1]]()},
	{"L[[3]bool, N2]", reflect.TypeFor[L[[3]bool, N2]]()},
	{"L[[3]bool, N3]", reflect.TypeFor[L[[3]bool, N3]]()},
	{"L[[3]bool, N5]", reflect.TypeFor[L[[3]bool, N5]]()},
	{"L[[3]bool, N33]", reflect.TypeFor[L[[3]bool, N33]]()},
	{"[0][3]bool", reflect.TypeFor[[0][3]bool]()},
	{"[1][3]bool", reflect.TypeFor[[1][3]bool]()},
	{"[2][3]bool", reflect.TypeFor[[2][3]bool]()},
	{"[3][3]bool", reflect.TypeFor[[3][3]bool]()},
	{"[5][3]bool", reflect.TypeFor[[5][3]bool]()},
	{"*[3]bool", reflect.TypeFor[*[3]bool]()},
	{"S1[[3]bool]", reflect.TypeFor[S1[[3]bool]]()},
	{"S3[uint8, [3]bool, uint16]", reflect.TypeFor[S3[uint8, [3]bool, uint16]]()},
	{"S2[[3]bool, [3]bool]", reflect.TypeFor[S2[[3]bool, [3]bool]]()},
	{"S4[L[byte, N3], [3]bool, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], [3]bool, L[byte, N2], uint32]]()},
	{"L[L[uint16, N3], N0]", reflect.TypeFor[L[L[uint16, N3], N0]]()},
	{"L[L[uint16, N3], N1]", reflect.TypeFor[L[L[uint16, N3], N1]]()},
	{"L[L[uint16, N3], N2]", reflect.TypeFor[L[L[uint16, N3], N2]]()},
	{"L[L[uint16, N3], N3]", reflect.TypeFor[L[L[uint16, N3], N3]]()},
	{"L[L[uint16, N3], N5]", reflect.TypeFor[L[L[uint16, N3], N5]]()},
	{"L[L[uint16, N3], N33]", reflect.TypeFor[L[L[uint16, N3], N33]]()},
	{"[0]L[uint16, N3]", reflect.TypeFor[[0]L[uint16, N3]]()},
	{"[1]L[uint16, N3]", reflect.TypeFor[[1]L[uint16, N3]]()},
	{"[2]L[uint16, N3]", reflect.TypeFor[[2]L[uint16, N3]]()},
	{"[3]L[uint16, N3]", reflect.TypeFor[[3]L[uint16, N3]]()},
	{"[5]L[uint16, N3]", reflect.TypeFor[[5]L[uint16, N3]]()},
	{"*L[uint16, N3]", reflect.TypeFor[*L[uint16, N3]]()},
	{"S1[L[uint16, N3]]", reflect.TypeFor[S1[L[uint16, N3]]]()},
	{"S3[uint8, L[uint16, N3], uint16]", reflect.TypeFor[S3[uint8, L[uint16, N3], uint16]]()},
	{"S2[L[uint16, N3], L[uint16, N3]]", reflect.TypeFor[S2[L[uint16, N3], L[uint16, N3]]]()},
	{"S4[L[byte, N3], L[uint16, N3], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], L[uint16, N3], L[byte, N2], uint32]]()},
	{"L[L[bool, N4], N0]", reflect.TypeFor[L[L[bool, N4], N0]]()},
	{"L[L[bool, N4], N1]", reflect.TypeFor[L[L[bool, N4], N1]]()},
	{"L[L[bool, N4], N2]", reflect.TypeFor[L[L[bool, N4], N2]]()},
	{"L[L[bool, N4], N3]", reflect.TypeFor[L[L[bool, N4], N3]]()},
	{"L[L[bool, N4], N5]", reflect.TypeFor[L[L[bool, N4], N5]]()},
	{"L[L[bool, N4], N33]", reflect.TypeFor[L[L[bool, N4], N33]]()},
	{"[0]L[bool, N4]", reflect.TypeFor[[0]L[bool, N4]]()},
	{"[1]L[bool, N4]", reflect.TypeFor[[1]L[bool, N4]]()},
	{"[2]L[bool, N4]", reflect.TypeFor[[2]L[bool, N4]]()},
	{"[3]L[bool, N4]", reflect.TypeFor[[3]L[bool, N4]]()},
	{"[5]L[bool, N4]", reflect.TypeFor[[5]L[bool, N4]]()},
	{"*L[bool, N4]", reflect.TypeFor[*L[bool, N4]]()},
	{"S1[L[bool, N4]]", reflect.TypeFor[S1[L[bool, N4]]]()},
	{"S3[uint8, L[bool, N4], uint16]", reflect.TypeFor[S3[uint8, L[bool, N4], uint16]]()},
	{"S2[L[bool, N4], L[bool, N4]]", reflect.TypeFor[S2[L[bool, N4], L[bool, N4]]]()},
	{"S4[L[byte, N3], L[bool, N4], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], L[bool, N4], L[byte, N2], uint32]]()},
	{"L[L[uint64, N5], N0]", reflect.TypeFor[L[L[uint64, N5], N0]]()},
	{"L[L[uint64, N5], N1]", reflect.TypeFor[L[L[uint64, N5], N1]]()},
	{"L[L[uint64, N5], N2]", reflect.TypeFor[L[L[uint64, N5], N2]]()},
	{"L[L[uint64, N5], N3]", reflect.TypeFor[L[L[uint64, N5], N3]]()},
	{"L[L[uint64, N5], N5]", reflect.TypeFor[L[L[uint64, N5], N5]]()},
	{"L[L[uint64, N5], N33]", reflect.TypeFor[L[L[uint64, N5], N33]]()},
	{"[0]L[uint64, N5]", reflect.TypeFor[[0]L[uint64, N5]]()},
	{"[1]L[uint64, N5]", reflect.TypeFor[[1]L[uint64, N5]]()},
	{"[2]L[uint64, N5]", reflect.TypeFor[[2]L[uint64, N5]]()},
	{"[3]L[uint64, N5]", reflect.TypeFor[[3]L[uint64, N5]]()},
	{"[5]L[uint64, N5]", reflect.TypeFor[[5]L[uint64, N5]]()},
	{"*L[uint64, N5]", reflect.TypeFor[*L[uint64, N5]]()},
	{"S1[L[uint64, N5]]", reflect.TypeFor[S1[L[uint64, N5]]]()},
	{"S3[uint8, L[uint64, N5], uint16]", reflect.TypeFor[S3[uint8, L[uint64, N5], uint16]]()},
	{"S2[L[uint64, N5], L[uint64, N5]]", reflect.TypeFor[S2[L[uint64, N5], L[uint64, N5]]]()},
	{"S4[L[byte, N3], L[uint64, N5], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], L[uint64, N5], L[byte, N2], uint32]]()},
	{"L[S3[uint16, uint64, bool], N0]", reflect.TypeFor[L[S3[uint16, uint64, bool], N0]]()},
	{"L[S3[uint16, uint64, bool], N1]", reflect.TypeFor[L[S3[uint16, uint64, bool], N1]]()},
	{"L[S3[uint16, uint64, bool], N2]", reflect.TypeFor[L[S3[uint16, uint64, bool], N2]]()},
	{"L[S3[uint16, uint64, bool], N3]", reflect.TypeFor[L[S3[uint16, uint64, bool], N3]]()},
	{"L[S3[uint16, uint64, bool], N5]", reflect.TypeFor[L[S3[uint16, uint64, bool], N5]]()},
	{"L[S3[uint16, uint64, bool], N33]", reflect.TypeFor[L[S3[uint16, uint64, bool], N33]]()},
	{"[0]S3[uint16, uint64, bool]", reflect.TypeFor[[0]S3[uint16, uint64, bool]]()},
	{"[1]S3[uint16, uint64, bool]", reflect.TypeFor[[1]S3[uint16, uint64, bool]]()},
	{"[2]S3[uint16, uint64, bool]", reflect.TypeFor[[2]S3[uint16, uint64, bool]]()},
	{"[3]S3[uint16, uint64, bool]", reflect.TypeFor[[3]S3[uint16, uint64, bool]]()},
	{"[5]S3[uint16, uint64, bool]", reflect.TypeFor[[5]S3[uint16, uint64, bool]]()},
	{"*S3[uint16, uint64, bool]", reflect.TypeFor[*S3[uint16, uint64, bool]]()},
	{"S1[S3[uint16, uint64, bool]]", reflect.TypeFor[S1[S3[uint16, uint64, bool]]]()},
	{"S3[uint8, S3[uint16, uint64, bool], uint16]", reflect.TypeFor[S3[uint8, S3[uint16, uint64, bool], uint16]]()},
	{"S2[S3[uint16, uint64, bool], S3[uint16, uint64, bool]]", reflect.TypeFor[S2[S3[uint16, uint64, bool], S3[uint16, uint64, bool]]]()},
	{"S4[L[byte, N3], S3[uint16, uint64, bool], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], S3[uint16, uint64, bool], L[byte, N2], uint32]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N0]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N0]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N1]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N1]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N5]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N5]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N33]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N33]]()},
	{"[0]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[0]S3[uint8, L[uint16, N3], uint32]]()},
	{"[1]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[1]S3[uint8, L[uint16, N3], uint32]]()},
	{"[2]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[2]S3[uint8, L[uint16, N3], uint32]]()},
	{"[3]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[3]S3[uint8, L[uint16, N3], uint32]]()},
	{"[5]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[5]S3[uint8, L[uint16, N3], uint32]]()},
	{"*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[*S3[uint8, L[uint16, N3], uint32]]()},
	{"S1[S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[S1[S3[uint8, L[uint16, N3], uint32]]]()},
	{"S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16]", reflect.TypeFor[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16]]()},
	{"S2[S3[uint8, L[uint16, N3], uint32], S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[S2[S3[uint8, L[uint16, N3], uint32], S3[uint8, L[uint16, N3], uint32]]]()},
	{"S4[L[byte, N3], S3[uint8, L[uint16, N3], uint32], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], S3[uint8, L[uint16, N3], uint32], L[byte, N2], uint32]]()},
	{"L[S2[L[byte, N5], BL[N9]], N0]", reflect.TypeFor[L[S2[L[byte, N5], BL[N9]], N0]]()},
	{"L[S2[L[byte, N5], BL[N9]], N1]", reflect.TypeFor[L[S2[L[byte, N5], BL[N9]], N1]]()},
	{"L[S2[L[byte, N5], BL[N9]], N2]", reflect.TypeFor[L[S2[L[byte, N5], BL[N9]], N2]]()},
	{"L[S2[L[byte, N5], BL[N9]], N3]", reflect.TypeFor[L[S2[L[byte, N5], BL[N9]], N3]]()},
	{"L[S2[L[byte, N5], BL[N9]], N5]", reflect.TypeFor[L[S2[L[byte, N5], BL[N9]], N5]]()},
	{"L[S2[L[byte, N5], BL[N9]], N33]", reflect.TypeFor[L[S2[L[byte, N5], BL[N9]], N33]]()},
	{"[0]S2[L[byte, N5], BL[N9]]", reflect.TypeFor[[0]S2[L[byte, N5], BL[N9]]]()},
	{"[1]S2[L[byte, N5], BL[N9]]", reflect.TypeFor[[1]S2[L[byte, N5], BL[N9]]]()},
	{"[2]S2[L[byte, N5], BL[N9]]", reflect.TypeFor[[2]S2[L[byte, N5], BL[N9]]]()},
	{"[3]S2[L[byte, N5], BL[N9]]", reflect.TypeFor[[3]S2[L[byte, N5], BL[N9]]]()},
	{"[5]S2[L[byte, N5], BL[N9]]", reflect.TypeFor[[5]S2[L[byte, N5], BL[N9]]]()},
	{"*S2[L[byte, N5], BL[N9]]", reflect.TypeFor[*S2[L[byte, N5], BL[N9]]]()},
	{"S1[S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[S1[S2[L[byte, N5], BL[N9]]]]()},
	{"S3[uint8, S2[L[byte, N5], BL[N9]], uint16]", reflect.TypeFor[S3[uint8, S2[L[byte, N5], BL[N9]], uint16]]()},
	{"S2[S2[L[byte, N5], BL[N9]], S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[S2[S2[L[byte, N5], BL[N9]], S2[L[byte, N5], BL[N9]]]]()},
	{"S4[L[byte, N3], S2[L[byte, N5], BL[N9]], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], S2[L[byte, N5], BL[N9]], L[byte, N2], uint32]]()},
	{"L[S1[bool], N0]", reflect.TypeFor[L[S1[bool], N0]]()},
	{"L[S1[bool], N1]", reflect.TypeFor[L[S1[bool], N1]]()},
	{"L[S1[bool], N2]", reflect.TypeFor[L[S1[bool], N2]]()},
	{"L[S1[bool], N3]", reflect.TypeFor[L[S1[bool], N3]]()},
	{"L[S1[bool], N5]", reflect.TypeFor[L[S1[bool], N5]]()},
	{"L[S1[bool], N33]", reflect.TypeFor[L[S1[bool], N33]]()},
	{"[0]S1[bool]", reflect.TypeFor[[0]S1[bool]]()},
	{"[1]S1[bool]", reflect.TypeFor[[1]S1[bool]]()},
	{"[2]S1[bool]", reflect.TypeFor[[2]S1[bool]]()},
	{"[3]S1[bool]", reflect.TypeFor[[3]S1[bool]]()},
	{"[5]S1[bool]", reflect.TypeFor[[5]S1[bool]]()},
	{"*S1[bool]", reflect.TypeFor[*S1[bool]]()},
	{"S1[S1[bool]]", reflect.TypeFor[S1[S1[bool]]]()},
	{"S3[uint8, S1[bool], uint16]", reflect.TypeFor[S3[uint8, S1[bool], uint16]]()},
	{"S2[S1[bool], S1[bool]]", reflect.TypeFor[S2[S1[bool], S1[bool]]]()},
	{"S4[L[byte, N3], S1[bool], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], S1[bool], L[byte, N2], uint32]]()},
	{"L[*S3[uint16, uint64, bool], N0]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N0]]()},
	{"L[*S3[uint16, uint64, bool], N1]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N1]]()},
	{"L[*S3[uint16, uint64, bool], N2]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N2]]()},
	{"L[*S3[uint16, uint64, bool], N3]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N3]]()},
	{"L[*S3[uint16, uint64, bool], N5]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N5]]()},
	{"L[*S3[uint16, uint64, bool], N33]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N33]]()},
	{"[0]*S3[uint16, uint64, bool]", reflect.TypeFor[[0]*S3[uint16, uint64, bool]]()},
	{"[1]*S3[uint16, uint64, bool]", reflect.TypeFor[[1]*S3[uint16, uint64, bool]]()},
	{"[2]*S3[uint16, uint64, bool]", reflect.TypeFor[[2]*S3[uint16, uint64, bool]]()},
	{"[3]*S3[uint16, uint64, bool]", reflect.TypeFor[[3]*S3[uint16, uint64, bool]]()},
	{"[5]*S3[uint16, uint64, bool]", reflect.TypeFor[[5]*S3[uint16, uint64, bool]]()},
	{"**S3[uint16, uint64, bool]", reflect.TypeFor[**S3[uint16, uint64, bool]]()},
	{"S1[*S3[uint16, uint64, bool]]", reflect.TypeFor[S1[*S3[uint16, uint64, bool]]]()},
	{"S3[uint8, *S3[uint16, uint64, bool], uint16]", reflect.TypeFor[S3[uint8, *S3[uint16, uint64, bool], uint16]]()},
	{"S2[*S3[uint16, uint64, bool], *S3[uint16, uint64, bool]]", reflect.TypeFor[S2[*S3[uint16, uint64, bool], *S3[uint16, uint64, bool]]]()},
	{"S4[L[byte, N3], *S3[uint16, uint64, bool], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], *S3[uint16, uint64, bool], L[byte, N2], uint32]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N0]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N0]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N1]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N1]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N5]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N5]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N33]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N33]]()},
	{"[0]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[0]*S3[uint8, L[uint16, N3], uint32]]()},
	{"[1]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[1]*S3[uint8, L[uint16, N3], uint32]]()},
	{"[2]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[2]*S3[uint8, L[uint16, N3], uint32]]()},
	{"[3]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[3]*S3[uint8, L[uint16, N3], uint32]]()},
	{"[5]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[5]*S3[uint8, L[uint16, N3], uint32]]()},
	{"**S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[**S3[uint8, L[uint16, N3], uint32]]()},
	{"S1[*S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[S1[*S3[uint8, L[uint16, N3], uint32]]]()},
	{"S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16]", reflect.TypeFor[S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16]]()},
	{"S2[*S3[uint8, L[uint16, N3], uint32], *S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[S2[*S3[uint8, L[uint16, N3], uint32], *S3[uint8, L[uint16, N3], uint32]]]()},
	{"S4[L[byte, N3], *S3[uint8, L[uint16, N3], uint32], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], *S3[uint8, L[uint16, N3], uint32], L[byte, N2], uint32]]()},
	{"L[*uint64, N0]", reflect.TypeFor[L[*uint64, N0]]()},
	{"L[*uint64, N1]", reflect.TypeFor[L[*uint64, N1]]()},
	{"L[*uint64, N2]", reflect.TypeFor[L[*uint64, N2]]()},
	{"L[*uint64, N3]", reflect.TypeFor[L[*uint64, N3]]()},
	{"L[*uint64, N5]", reflect.TypeFor[L[*uint64, N5]]()},
	{"L[*uint64, N33]", reflect.TypeFor[L[*uint64, N33]]()},
	{"[0]*uint64", reflect.TypeFor[[0]*uint64]()},
	{"[1]*uint64", reflect.TypeFor[[1]*uint64]()},
	{"[2]*uint64", reflect.TypeFor[[2]*uint64]()},
	{"[3]*uint64", reflect.TypeFor[[3]*uint64]()},
	{"[5]*uint64", reflect.TypeFor[[5]*uint64]()},
	{"**uint64", reflect.TypeFor[**uint64]()},
	{"S1[*uint64]", reflect.TypeFor[S1[*uint64]]()},
	{"S3[uint8, *uint64, uint16]", reflect.TypeFor[S3[uint8, *uint64, uint16]]()},
	{"S2[*uint64, *uint64]", reflect.TypeFor[S2[*uint64, *uint64]]()},
	{"S4[L[byte, N3], *uint64, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], *uint64, L[byte, N2], uint32]]()},
	{"L[*bool, N0]", reflect.TypeFor[L[*bool, N0]]()},
	{"L[*bool, N1]", reflect.TypeFor[L[*bool, N1]]()},
	{"L[*bool, N2]", reflect.TypeFor[L[*bool, N2]]()},
	{"L[*bool, N3]", reflect.TypeFor[L[*bool, N3]]()},
	{"L[*bool, N5]", reflect.TypeFor[L[*bool, N5]]()},
	{"L[*bool, N33]", reflect.TypeFor[L[*bool, N33]]()},
	{"[0]*bool", reflect.TypeFor[[0]*bool]()},
	{"[1]*bool", reflect.TypeFor[[1]*bool]()},
	{"[2]*bool", reflect.TypeFor[[2]*bool]()},
	{"[3]*bool", reflect.TypeFor[[3]*bool]()},
	{"[5]*bool", reflect.TypeFor[[5]*bool]()},
	{"**bool", reflect.TypeFor[**bool]()},
	{"S1[*bool]", reflect.TypeFor[S1[*bool]]()},
	{"S3[uint8, *bool, uint16]", reflect.TypeFor[S3[uint8, *bool, uint16]]()},
	{"S2[*bool, *bool]", reflect.TypeFor[S2[*bool, *bool]]()},
	{"S4[L[byte, N3], *bool, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], *bool, L[byte, N2], uint32]]()},
	{"L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N0]", reflect.TypeFor[L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N0]]()},
	{"L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N1]", reflect.TypeFor[L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N1]]()},
	{"L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N2]", reflect.TypeFor[L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N2]]()},
	{"L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N3]", reflect.TypeFor[L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N3]]()},
	{"L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N5]", reflect.TypeFor[L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N5]]()},
	{"L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N33]", reflect.TypeFor[L[S2[*uint32, *S2[L[byte, N5], BL[N9]]], N33]]()},
	{"[0]S2[*uint32, *S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[[0]S2[*uint32, *S2[L[byte, N5], BL[N9]]]]()},
	{"[1]S2[*uint32, *S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[[1]S2[*uint32, *S2[L[byte, N5], BL[N9]]]]()},
	{"[2]S2[*uint32, *S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[[2]S2[*uint32, *S2[L[byte, N5], BL[N9]]]]()},
	{"[3]S2[*uint32, *S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[[3]S2[*uint32, *S2[L[byte, N5], BL[N9]]]]()},
	{"[5]S2[*uint32, *S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[[5]S2[*uint32, *S2[L[byte, N5], BL[N9]]]]()},
	{"*S2[*uint32, *S2[L[byte, N5], BL[N9]]]", reflect.TypeFor[*S2[*uint32, *S2[L[byte, N5], BL[N9]]]]()},
	{"S1[S2[*uint32, *S2[L[byte, N5], BL[N9]]]]", reflect.TypeFor[S1[S2[*uint32, *S2[L[byte, N5], BL[N9]]]]]()},
	{"S3[uint8, S2[*uint32, *S2[L[byte, N5], BL[N9]]], uint16]", reflect.TypeFor[S3[uint8, S2[*uint32, *S2[L[byte, N5], BL[N9]]], uint16]]()},
	{"S2[S2[*uint32, *S2[L[byte, N5], BL[N9]]], S2[*uint32, *S2[L[byte, N5], BL[N9]]]]", reflect.TypeFor[S2[S2[*uint32, *S2[L[byte, N5], BL[N9]]], S2[*uint32, *S2[L[byte, N5], BL[N9]]]]]()},
	{"S4[L[byte, N3], S2[*uint32, *S2[L[byte, N5], BL[N9]]], L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], S2[*uint32, *S2[L[byte, N5], BL[N9]]], L[byte, N2], uint32]]()},
	{"L[Omit1, N0]", reflect.TypeFor[L[Omit1, N0]]()},
	{"L[Omit1, N1]", reflect.TypeFor[L[Omit1, N1]]()},
	{"L[Omit1, N2]", reflect.TypeFor[L[Omit1, N2]]()},
	{"L[Omit1, N3]", reflect.TypeFor[L[Omit1, N3]]()},
	{"L[Omit1, N5]", reflect.TypeFor[L[Omit1, N5]]()},
	{"L[Omit1, N33]", reflect.TypeFor[L[Omit1, N33]]()},
	{"[0]Omit1", reflect.TypeFor[[0]Omit1]()},
	{"[1]Omit1", reflect.TypeFor[[1]Omit1]()},
	{"[2]Omit1", reflect.TypeFor[[2]Omit1]()},
	{"[3]Omit1", reflect.TypeFor[[3]Omit1]()},
	{"[5]Omit1", reflect.TypeFor[[5]Omit1]()},
	{"*Omit1", reflect.TypeFor[*Omit1]()},
	{"S1[Omit1]", reflect.TypeFor[S1[Omit1]]()},
	{"S3[uint8, Omit1, uint16]", reflect.TypeFor[S3[uint8, Omit1, uint16]]()},
	{"S2[Omit1, Omit1]", reflect.TypeFor[S2[Omit1, Omit1]]()},
	{"S4[L[byte, N3], Omit1, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], Omit1, L[byte, N2], uint32]]()},
	{"L[Squash1, N0]", reflect.TypeFor[L[Squash1, N0]]()},
	{"L[Squash1, N1]", reflect.TypeFor[L[Squash1, N1]]()},
	{"L[Squash1, N2]", reflect.TypeFor[L[Squash1, N2]]()},
	{"L[Squash1, N3]", reflect.TypeFor[L[Squash1, N3]]()},
	{"L[Squash1, N5]", reflect.TypeFor[L[Squash1, N5]]()},
	{"L[Squash1, N33]", reflect.TypeFor[L[Squash1, N33]]()},
	{"[0]Squash1", reflect.TypeFor[[0]Squash1]()},
	{"[1]Squash1", reflect.TypeFor[[1]Squash1]()},
	{"[2]Squash1", reflect.TypeFor[[2]Squash1]()},
	{"[3]Squash1", reflect.TypeFor[[3]Squash1]()},
	{"[5]Squash1", reflect.TypeFor[[5]Squash1]()},
	{"*Squash1", reflect.TypeFor[*Squash1]()},
	{"S1[Squash1]", reflect.TypeFor[S1[Squash1]]()},
	{"S3[uint8, Squash1, uint16]", reflect.TypeFor[S3[uint8, Squash1, uint16]]()},
	{"S2[Squash1, Squash1]", reflect.TypeFor[S2[Squash1, Squash1]]()},
	{"S4[L[byte, N3], Squash1, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], Squash1, L[byte, N2], uint32]]()},
	{"L[Many33, N0]", reflect.TypeFor[L[Many33, N0]]()},
	{"L[Many33, N1]", reflect.TypeFor[L[Many33, N1]]()},
	{"L[Many33, N2]", reflect.TypeFor[L[Many33, N2]]()},
	{"L[Many33, N3]", reflect.TypeFor[L[Many33, N3]]()},
	{"L[Many33, N5]", reflect.TypeFor[L[Many33, N5]]()},
	{"L[Many33, N33]", reflect.TypeFor[L[Many33, N33]]()},
	{"[0]Many33", reflect.TypeFor[[0]Many33]()},
	{"[1]Many33", reflect.TypeFor[[1]Many33]()},
	{"[2]Many33", reflect.TypeFor[[2]Many33]()},
	{"[3]Many33", reflect.TypeFor[[3]Many33]()},
	{"[5]Many33", reflect.TypeFor[[5]Many33]()},
	{"*Many33", reflect.TypeFor[*Many33]()},
	{"S1[Many33]", reflect.TypeFor[S1[Many33]]()},
	{"S3[uint8, Many33, uint16]", reflect.TypeFor[S3[uint8, Many33, uint16]]()},
	{"S2[Many33, Many33]", reflect.TypeFor[S2[Many33, Many33]]()},
	{"S4[L[byte, N3], Many33, L[byte, N2], uint32]", reflect.TypeFor[S4[L[byte, N3], Many33, L[byte, N2], uint32]]()},
	{"S0", reflect.TypeFor[S0]()},
	{"[0]S0", reflect.TypeFor[[0]S0]()},
	{"[2]S0", reflect.TypeFor[[2]S0]()},
	{"S2[S0, uint8]", reflect.TypeFor[S2[S0, uint8]]()},
	{"**uint16", reflect.TypeFor[**uint16]()},
	{"*S0", reflect.TypeFor[*S0]()},
	{"S1[*S0]", reflect.TypeFor[S1[*S0]]()},
	{"Deep", reflect.TypeFor[Deep]()},
	{"Eth1", reflect.TypeFor[Eth1]()},
	{"Eth2", reflect.TypeFor[Eth2]()},
}

var Level3 = []Entry{
	{"L[L[L[byte, N5], N2], N2]", reflect.TypeFor[L[L[L[byte, N5], N2], N2]]()},
	{"L[L[L[byte, N5], N2], N3]", reflect.TypeFor[L[L[L[byte, N5], N2], N3]]()},
	{"[2]L[L[byte, N5], N2]", reflect.TypeFor[[2]L[L[byte, N5], N2]]()},
	{"*L[L[byte, N5], N2]", reflect.TypeFor[*L[L[byte, N5], N2]]()},
	{"S3[uint8, L[L[byte, N5], N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[L[byte, N5], N2], L[byte, N3]]]()},
	{"L[L[L[byte, N5], N3], N2]", reflect.TypeFor[L[L[L[byte, N5], N3], N2]]()},
	{"L[L[L[byte, N5], N3], N3]", reflect.TypeFor[L[L[L[byte, N5], N3], N3]]()},
	{"[2]L[L[byte, N5], N3]", reflect.TypeFor[[2]L[L[byte, N5], N3]]()},
	{"*L[L[byte, N5], N3]", reflect.TypeFor[*L[L[byte, N5], N3]]()},
	{"S3[uint8, L[L[byte, N5], N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[L[byte, N5], N3], L[byte, N3]]]()},
	{"L[[2]L[byte, N5], N2]", reflect.TypeFor[L[[2]L[byte, N5], N2]]()},
	{"L[[2]L[byte, N5], N3]", reflect.TypeFor[L[[2]L[byte, N5], N3]]()},
	{"[2][2]L[byte, N5]", reflect.TypeFor[[2][2]L[byte, N5]]()},
	{"*[2]L[byte, N5]", reflect.TypeFor[*[2]L[byte, N5]]()},
	{"S3[uint8, [2]L[byte, N5], L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]L[byte, N5], L[byte, N3]]]()},
	{"L[S3[uint8, L[byte, N5], uint16], N2]", reflect.TypeFor[L[S3[uint8, L[byte, N5], uint16], N2]]()},
	{"L[S3[uint8, L[byte, N5], uint16], N3]", reflect.TypeFor[L[S3[uint8, L[byte, N5], uint16], N3]]()},
	{"[2]S3[uint8, L[byte, N5], uint16]", reflect.TypeFor[[2]S3[uint8, L[byte, N5], uint16]]()},
	{"*S3[uint8, L[byte, N5], uint16]", reflect.TypeFor[*S3[uint8, L[byte, N5], uint16]]()},
	{"S3[uint8, S3[uint8, L[byte, N5], uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, L[byte, N5], uint16], L[byte, N3]]]()},
	{"L[S1[L[byte, N5]], N2]", reflect.TypeFor[L[S1[L[byte, N5]], N2]]()},
	{"L[S1[L[byte, N5]], N3]", reflect.TypeFor[L[S1[L[byte, N5]], N3]]()},
	{"[2]S1[L[byte, N5]]", reflect.TypeFor[[2]S1[L[byte, N5]]]()},
	{"*S1[L[byte, N5]]", reflect.TypeFor[*S1[L[byte, N5]]]()},
	{"S3[uint8, S1[L[byte, N5]], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[L[byte, N5]], L[byte, N3]]]()},
	{"L[*L[byte, N5], N2]", reflect.TypeFor[L[*L[byte, N5], N2]]()},
	{"L[*L[byte, N5], N3]", reflect.TypeFor[L[*L[byte, N5], N3]]()},
	{"[2]*L[byte, N5]", reflect.TypeFor[[2]*L[byte, N5]]()},
	{"**L[byte, N5]", reflect.TypeFor[**L[byte, N5]]()},
	{"S3[uint8, *L[byte, N5], L[byte, N3]]", reflect.TypeFor[S3[uint8, *L[byte, N5], L[byte, N3]]]()},
	{"L[L[BL[N9], N2], N2]", reflect.TypeFor[L[L[BL[N9], N2], N2]]()},
	{"L[L[BL[N9], N2], N3]", reflect.TypeFor[L[L[BL[N9], N2], N3]]()},
	{"[2]L[BL[N9], N2]", reflect.TypeFor[[2]L[BL[N9], N2]]()},
	{"*L[BL[N9], N2]", reflect.TypeFor[*L[BL[N9], N2]]()},
	{"S3[uint8, L[BL[N9], N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[BL[N9], N2], L[byte, N3]]]()},
	{"L[L[BL[N9], N3], N2]", reflect.TypeFor[L[L[BL[N9], N3], N2]]()},
	{"L[L[BL[N9], N3], N3]", reflect.TypeFor[L[L[BL[N9], N3], N3]]()},
	{"[2]L[BL[N9], N3]", reflect.TypeFor[[2]L[BL[N9], N3]]()},
	{"*L[BL[N9], N3]", reflect.TypeFor[*L[BL[N9], N3]]()},
	{"S3[uint8, L[BL[N9], N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[BL[N9], N3], L[byte, N3]]]()},
	{"L[[2]BL[N9], N2]", reflect.TypeFor[L[[2]BL[N9], N2]]()},
	{"L[[2]BL[N9], N3]", reflect.TypeFor[L[[2]BL[N9], N3]]()},
	{"[2][2]BL[N9]", reflect.TypeFor[[2][2]BL[N9]]()},
	{"*[2]BL[N9]", reflect.TypeFor[*[2]BL[N9]]()},
	{"S3[uint8, [2]BL[N9], L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]BL[N9], L[byte, N3]]]()},
	{"L[S3[uint8, BL[N9], uint16], N2]", reflect.TypeFor[L[S3[uint8, BL[N9], uint16], N2]]()},
	{"L[S3[uint8, BL[N9], uint16], N3]", reflect.TypeFor[L[S3[uint8, BL[N9], uint16], N3]]()},
	{"[2]S3[uint8, BL[N9], uint16]", reflect.TypeFor[[2]S3[uint8, BL[N9], uint16]]()},
	{"*S3[uint8, BL[N9], uint16]", reflect.TypeFor[*S3[uint8, BL[N9], uint16]]()},
	{"S3[uint8, S3[uint8, BL[N9], uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, BL[N9], uint16], L[byte, N3]]]()},
	{"L[S1[BL[N9]], N2]", reflect.TypeFor[L[S1[BL[N9]], N2]]()},
	{"L[S1[BL[N9]], N3]", reflect.TypeFor[L[S1[BL[N9]], N3]]()},
	{"[2]S1[BL[N9]]", reflect.TypeFor[[2]S1[BL[N9]]]()},
	{"*S1[BL[N9]]", reflect.TypeFor[*S1[BL[N9]]]()},
	{"S3[uint8, S1[BL[N9]], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[BL[N9]], L[byte, N3]]]()},
	{"L[*BL[N9], N2]", reflect.TypeFor[L[*BL[N9], N2]]()},
	{"L[*BL[N9], N3]", reflect.TypeFor[L[*BL[N9], N3]]()},
	{"[2]*BL[N9]", reflect.TypeFor[[2]*BL[N9]]()},
	{"**BL[N9]", reflect.TypeFor[**BL[N9]]()},
	{"S3[uint8, *BL[N9], L[byte, N3]]", reflect.TypeFor[S3[uint8, *BL[N9], L[byte, N3]]]()},
	{"L[L[L[uint16, N3], N2], N2]", reflect.TypeFor[L[L[L[uint16, N3], N2], N2]]()},
	{"L[L[L[uint16, N3], N2], N3]", reflect.TypeFor[L[L[L[uint16, N3], N2], N3]]()},
	{"[2]L[L[uint16, N3], N2]", reflect.TypeFor[[2]L[L[uint16, N3], N2]]()},
	{"*L[L[uint16, N3], N2]", reflect.TypeFor[*L[L[uint16, N3], N2]]()},
	{"S3[uint8, L[L[uint16, N3], N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[L[uint16, N3], N2], L[byte, N3]]]()},
	{"L[L[L[uint16, N3], N3], N2]", reflect.TypeFor[L[L[L[uint16, N3], N3], N2]]()},
	{"L[L[L[uint16, N3], N3], N3]", reflect.TypeFor[L[L[L[uint16, N3], N3], N3]]()},
	{"[2]L[L[uint16, N3], N3]", reflect.TypeFor[[2]L[L[uint16, N3], N3]]()},
	{"*L[L[uint16, N3], N3]", reflect.TypeFor[*L[L[uint16, N3], N3]]()},
	{"S3[uint8, L[L[uint16, N3], N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[L[uint16, N3], N3], L[byte, N3]]]()},
	{"L[[2]L[uint16, N3], N2]", reflect.TypeFor[L[[2]L[uint16, N3], N2]]()},
	{"L[[2]L[uint16, N3], N3]", reflect.TypeFor[L[[2]L[uint16, N3], N3]]()},
	{"[2][2]L[uint16, N3]", reflect.TypeFor[[2][2]L[uint16, N3]]()},
	{"*[2]L[uint16, N3]", reflect.TypeFor[*[2]L[uint16, N3]]()},
	{"S3[uint8, [2]L[uint16, N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]L[uint16, N3], L[byte, N3]]]()},
	{"L[S3[uint8, L[uint16, N3], uint16], N2]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint16], N2]]()},
	{"L[S3[uint8, L[uint16, N3], uint16], N3]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint16], N3]]()},
	{"[2]S3[uint8, L[uint16, N3], uint16]", reflect.TypeFor[[2]S3[uint8, L[uint16, N3], uint16]]()},
	{"*S3[uint8, L[uint16, N3], uint16]", reflect.TypeFor[*S3[uint8, L[uint16, N3], uint16]]()},
	{"S3[uint8, S3[uint8, L[uint16, N3], uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, L[uint16, N3], uint16], L[byte, N3]]]()},
	{"L[S1[L[uint16, N3]], N2]", reflect.TypeFor[L[S1[L[uint16, N3]], N2]]()},
	{"L[S1[L[uint16, N3]], N3]", reflect.TypeFor[L[S1[L[uint16, N3]], N3]]()},
	{"[2]S1[L[uint16, N3]]", reflect.TypeFor[[2]S1[L[uint16, N3]]]()},
	{"*S1[L[uint16, N3]]", reflect.TypeFor[*S1[L[uint16, N3]]]()},
	{"S3[uint8, S1[L[uint16, N3]], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[L[uint16, N3]], L[byte, N3]]]()},
	{"L[*L[uint16, N3], N2]", reflect.TypeFor[L[*L[uint16, N3], N2]]()},
	{"L[*L[uint16, N3], N3]", reflect.TypeFor[L[*L[uint16, N3], N3]]()},
	{"[2]*L[uint16, N3]", reflect.TypeFor[[2]*L[uint16, N3]]()},
	{"**L[uint16, N3]", reflect.TypeFor[**L[uint16, N3]]()},
	{"S3[uint8, *L[uint16, N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, *L[uint16, N3], L[byte, N3]]]()},
	{"L[L[S3[uint8, L[uint16, N3], uint32], N2], N2]", reflect.TypeFor[L[L[S3[uint8, L[uint16, N3], uint32], N2], N2]]()},
	{"L[L[S3[uint8, L[uint16, N3], uint32], N2], N3]", reflect.TypeFor[L[L[S3[uint8, L[uint16, N3], uint32], N2], N3]]()},
	{"[2]L[S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[[2]L[S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"*L[S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[*L[S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]]()},
	{"L[L[S3[uint8, L[uint16, N3], uint32], N3], N2]", reflect.TypeFor[L[L[S3[uint8, L[uint16, N3], uint32], N3], N2]]()},
	{"L[L[S3[uint8, L[uint16, N3], uint32], N3], N3]", reflect.TypeFor[L[L[S3[uint8, L[uint16, N3], uint32], N3], N3]]()},
	{"[2]L[S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[[2]L[S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"*L[S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[*L[S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N3], L[byte, N3]]]()},
	{"L[[2]S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[L[[2]S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[[2]S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[L[[2]S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"[2][2]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[2][2]S3[uint8, L[uint16, N3], uint32]]()},
	{"*[2]S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[*[2]S3[uint8, L[uint16, N3], uint32]]()},
	{"S3[uint8, [2]S3[uint8, L[uint16, N3], uint32], L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]S3[uint8, L[uint16, N3], uint32], L[byte, N3]]]()},
	{"L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2]", reflect.TypeFor[L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2]]()},
	{"L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N3]", reflect.TypeFor[L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N3]]()},
	{"[2]S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16]", reflect.TypeFor[[2]S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16]]()},
	{"*S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16]", reflect.TypeFor[*S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16]]()},
	{"S3[uint8, S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], L[byte, N3]]]()},
	{"L[S1[S3[uint8, L[uint16, N3], uint32]], N2]", reflect.TypeFor[L[S1[S3[uint8, L[uint16, N3], uint32]], N2]]()},
	{"L[S1[S3[uint8, L[uint16, N3], uint32]], N3]", reflect.TypeFor[L[S1[S3[uint8, L[uint16, N3], uint32]], N3]]()},
	{"[2]S1[S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[[2]S1[S3[uint8, L[uint16, N3], uint32]]]()},
	{"*S1[S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[*S1[S3[uint8, L[uint16, N3], uint32]]]()},
	{"S3[uint8, S1[S3[uint8, L[uint16, N3], uint32]], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[S3[uint8, L[uint16, N3], uint32]], L[byte, N3]]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"[2]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[2]*S3[uint8, L[uint16, N3], uint32]]()},
	{"**S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[**S3[uint8, L[uint16, N3], uint32]]()},
	{"S3[uint8, *S3[uint8, L[uint16, N3], uint32], L[byte, N3]]", reflect.TypeFor[S3[uint8, *S3[uint8, L[uint16, N3], uint32], L[byte, N3]]]()},
	{"L[L[[32]byte, N2], N2]", reflect.TypeFor[L[L[[32]byte, N2], N2]]()},
	{"L[L[[32]byte, N2], N3]", reflect.TypeFor[L[L[[32]byte, N2], N3]]()},
	{"[2]L[[32]byte, N2]", reflect.TypeFor[[2]L[[32]byte, N2]]()},
	{"*L[[32]byte, N2]", reflect.TypeFor[*L[[32]byte, N2]]()},
	{"S3[uint8, L[[32]byte, N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[[32]byte, N2], L[byte, N3]]]()},
	{"L[L[[32]byte, N3], N2]", reflect.TypeFor[L[L[[32]byte, N3], N2]]()},
	{"L[L[[32]byte, N3], N3]", reflect.TypeFor[L[L[[32]byte, N3], N3]]()},
	{"[2]L[[32]byte, N3]", reflect.TypeFor[[2]L[[32]byte, N3]]()},
	{"*L[[32]byte, N3]", reflect.TypeFor[*L[[32]byte, N3]]()},
	{"S3[uint8, L[[32]byte, N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[[32]byte, N3], L[byte, N3]]]()},
	{"L[[2][32]byte, N2]", reflect.TypeFor[L[[2][32]byte, N2]]()},
	{"L[[2][32]byte, N3]", reflect.TypeFor[L[[2][32]byte, N3]]()},
	{"[2][2][32]byte", reflect.TypeFor[[2][2][32]byte]()},
	{"*[2][32]byte", reflect.TypeFor[*[2][32]byte]()},
	{"S3[uint8, [2][32]byte, L[byte, N3]]", reflect.TypeFor[S3[uint8, [2][32]byte, L[byte, N3]]]()},
	{"L[S3[uint8, [32]byte, uint16], N2]", reflect.TypeFor[L[S3[uint8, [32]byte, uint16], N2]]()},
	{"L[S3[uint8, [32]byte, uint16], N3]", reflect.TypeFor[L[S3[uint8, [32]byte, uint16], N3]]()},
	{"[2]S3[uint8, [32]byte, uint16]", reflect.TypeFor[[2]S3[uint8, [32]byte, uint16]]()},
	{"*S3[uint8, [32]byte, uint16]", reflect.TypeFor[*S3[uint8, [32]byte, uint16]]()},
	{"S3[uint8, S3[uint8, [32]byte, uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, [32]byte, uint16], L[byte, N3]]]()},
	{"L[S1[[32]byte], N2]", reflect.TypeFor[L[S1[[32]byte], N2]]()},
	{"L[S1[[32]byte], N3]", reflect.TypeFor[L[S1[[32]byte], N3]]()},
	{"[2]S1[[32]byte]", reflect.TypeFor[[2]S1[[32]byte]]()},
	{"*S1[[32]byte]", reflect.TypeFor[*S1[[32]byte]]()},
	{"S3[uint8, S1[[32]byte], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[[32]byte], L[byte, N3]]]()},
	{"L[*[32]byte, N2]", reflect.TypeFor[L[*[32]byte, N2]]()},
	{"L[*[32]byte, N3]", reflect.TypeFor[L[*[32]byte, N3]]()},
	{"[2]*[32]byte", reflect.TypeFor[[2]*[32]byte]()},
	{"**[32]byte", reflect.TypeFor[**[32]byte]()},
	{"S3[uint8, *[32]byte, L[byte, N3]]", reflect.TypeFor[S3[uint8, *[32]byte, L[byte, N3]]]()},
	{"L[L[S3[uint16, uint64, bool], N2], N2]", reflect.TypeFor[L[L[S3[uint16, uint64, bool], N2], N2]]()},
	{"L[L[S3[uint16, uint64, bool], N2], N3]", reflect.TypeFor[L[L[S3[uint16, uint64, bool], N2], N3]]()},
	{"[2]L[S3[uint16, uint64, bool], N2]", reflect.TypeFor[[2]L[S3[uint16, uint64, bool], N2]]()},
	{"*L[S3[uint16, uint64, bool], N2]", reflect.TypeFor[*L[S3[uint16, uint64, bool], N2]]()},
	{"S3[uint8, L[S3[uint16, uint64, bool], N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[S3[uint16, uint64, bool], N2], L[byte, N3]]]()},
	{"L[L[S3[uint16, uint64, bool], N3], N2]", reflect.TypeFor[L[L[S3[uint16, uint64, bool], N3], N2]]()},
	{"L[L[S3[uint16, uint64, bool], N3], N3]", reflect.TypeFor[L[L[S3[uint16, uint64, bool], N3], N3]]()},
	{"[2]L[S3[uint16, uint64, bool], N3]", reflect.TypeFor[[2]L[S3[uint16, uint64, bool], N3]]()},
	{"*L[S3[uint16, uint64, bool], N3]", reflect.TypeFor[*L[S3[uint16, uint64, bool], N3]]()},
	{"S3[uint8, L[S3[uint16, uint64, bool], N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[S3[uint16, uint64, bool], N3], L[byte, N3]]]()},
	{"L[[2]S3[uint16, uint64, bool], N2]", reflect.TypeFor[L[[2]S3[uint16, uint64, bool], N2]]()},
	{"L[[2]S3[uint16, uint64, bool], N3]", reflect.TypeFor[L[[2]S3[uint16, uint64, bool], N3]]()},
	{"[2][2]S3[uint16, uint64, bool]", reflect.TypeFor[[2][2]S3[uint16, uint64, bool]]()},
	{"*[2]S3[uint16, uint64, bool]", reflect.TypeFor[*[2]S3[uint16, uint64, bool]]()},
	{"S3[uint8, [2]S3[uint16, uint64, bool], L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]S3[uint16, uint64, bool], L[byte, N3]]]()},
	{"L[S3[uint8, S3[uint16, uint64, bool], uint16], N2]", reflect.TypeFor[L[S3[uint8, S3[uint16, uint64, bool], uint16], N2]]()},
	{"L[S3[uint8, S3[uint16, uint64, bool], uint16], N3]", reflect.TypeFor[L[S3[uint8, S3[uint16, uint64, bool], uint16], N3]]()},
	{"[2]S3[uint8, S3[uint16, uint64, bool], uint16]", reflect.TypeFor[[2]S3[uint8, S3[uint16, uint64, bool], uint16]]()},
	{"*S3[uint8, S3[uint16, uint64, bool], uint16]", reflect.TypeFor[*S3[uint8, S3[uint16, uint64, bool], uint16]]()},
	{"S3[uint8, S3[uint8, S3[uint16, uint64, bool], uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, S3[uint16, uint64, bool], uint16], L[byte, N3]]]()},
	{"L[S1[S3[uint16, uint64, bool]], N2]", reflect.TypeFor[L[S1[S3[uint16, uint64, bool]], N2]]()},
	{"L[S1[S3[uint16, uint64, bool]], N3]", reflect.TypeFor[L[S1[S3[uint16, uint64, bool]], N3]]()},
	{"[2]S1[S3[uint16, uint64, bool]]", reflect.TypeFor[[2]S1[S3[uint16, uint64, bool]]]()},
	{"*S1[S3[uint16, uint64, bool]]", reflect.TypeFor[*S1[S3[uint16, uint64, bool]]]()},
	{"S3[uint8, S1[S3[uint16, uint64, bool]], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[S3[uint16, uint64, bool]], L[byte, N3]]]()},
	{"L[*S3[uint16, uint64, bool], N2]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N2]]()},
	{"L[*S3[uint16, uint64, bool], N3]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N3]]()},
	{"[2]*S3[uint16, uint64, bool]", reflect.TypeFor[[2]*S3[uint16, uint64, bool]]()},
	{"**S3[uint16, uint64, bool]", reflect.TypeFor[**S3[uint16, uint64, bool]]()},
	{"S3[uint8, *S3[uint16, uint64, bool], L[byte, N3]]", reflect.TypeFor[S3[uint8, *S3[uint16, uint64, bool], L[byte, N3]]]()},
	{"L[L[*S3[uint8, L[uint16, N3], uint32], N2], N2]", reflect.TypeFor[L[L[*S3[uint8, L[uint16, N3], uint32], N2], N2]]()},
	{"L[L[*S3[uint8, L[uint16, N3], uint32], N2], N3]", reflect.TypeFor[L[L[*S3[uint8, L[uint16, N3], uint32], N2], N3]]()},
	{"[2]L[*S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[[2]L[*S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"*L[*S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[*L[*S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"S3[uint8, L[*S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[*S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]]()},
	{"L[L[*S3[uint8, L[uint16, N3], uint32], N3], N2]", reflect.TypeFor[L[L[*S3[uint8, L[uint16, N3], uint32], N3], N2]]()},
	{"L[L[*S3[uint8, L[uint16, N3], uint32], N3], N3]", reflect.TypeFor[L[L[*S3[uint8, L[uint16, N3], uint32], N3], N3]]()},
	{"[2]L[*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[[2]L[*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"*L[*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[*L[*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"S3[uint8, L[*S3[uint8, L[uint16, N3], uint32], N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[*S3[uint8, L[uint16, N3], uint32], N3], L[byte, N3]]]()},
	{"L[[2]*S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[L[[2]*S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[[2]*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[L[[2]*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"[2][2]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[2][2]*S3[uint8, L[uint16, N3], uint32]]()},
	{"*[2]*S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[*[2]*S3[uint8, L[uint16, N3], uint32]]()},
	{"S3[uint8, [2]*S3[uint8, L[uint16, N3], uint32], L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]*S3[uint8, L[uint16, N3], uint32], L[byte, N3]]]()},
	{"L[S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16], N2]", reflect.TypeFor[L[S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16], N2]]()},
	{"L[S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16], N3]", reflect.TypeFor[L[S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16], N3]]()},
	{"[2]S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16]", reflect.TypeFor[[2]S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16]]()},
	{"*S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16]", reflect.TypeFor[*S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16]]()},
	{"S3[uint8, S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, *S3[uint8, L[uint16, N3], uint32], uint16], L[byte, N3]]]()},
	{"L[S1[*S3[uint8, L[uint16, N3], uint32]], N2]", reflect.TypeFor[L[S1[*S3[uint8, L[uint16, N3], uint32]], N2]]()},
	{"L[S1[*S3[uint8, L[uint16, N3], uint32]], N3]", reflect.TypeFor[L[S1[*S3[uint8, L[uint16, N3], uint32]], N3]]()},
	{"[2]S1[*S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[[2]S1[*S3[uint8, L[uint16, N3], uint32]]]()},
	{"*S1[*S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[*S1[*S3[uint8, L[uint16, N3], uint32]]]()},
	{"S3[uint8, S1[*S3[uint8, L[uint16, N3], uint32]], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[*S3[uint8, L[uint16, N3], uint32]], L[byte, N3]]]()},
	{"L[**S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[L[**S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[**S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[L[**S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"[2]**S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[[2]**S3[uint8, L[uint16, N3], uint32]]()},
	{"***S3[uint8, L[uint16, N3], uint32]", reflect.TypeFor[***S3[uint8, L[uint16, N3], uint32]]()},
	{"S3[uint8, **S3[uint8, L[uint16, N3], uint32], L[byte, N3]]", reflect.TypeFor[S3[uint8, **S3[uint8, L[uint16, N3], uint32], L[byte, N3]]]()},
	{"L[L[Bv9, N2], N2]", reflect.TypeFor[L[L[Bv9, N2], N2]]()},
	{"L[L[Bv9, N2], N3]", reflect.TypeFor[L[L[Bv9, N2], N3]]()},
	{"[2]L[Bv9, N2]", reflect.TypeFor[[2]L[Bv9, N2]]()},
	{"*L[Bv9, N2]", reflect.TypeFor[*L[Bv9, N2]]()},
	{"S3[uint8, L[Bv9, N2], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[Bv9, N2], L[byte, N3]]]()},
	{"L[L[Bv9, N3], N2]", reflect.TypeFor[L[L[Bv9, N3], N2]]()},
	{"L[L[Bv9, N3], N3]", reflect.TypeFor[L[L[Bv9, N3], N3]]()},
	{"[2]L[Bv9, N3]", reflect.TypeFor[[2]L[Bv9, N3]]()},
	{"*L[Bv9, N3]", reflect.TypeFor[*L[Bv9, N3]]()},
	{"S3[uint8, L[Bv9, N3], L[byte, N3]]", reflect.TypeFor[S3[uint8, L[Bv9, N3], L[byte, N3]]]()},
	{"L[[2]Bv9, N2]", reflect.TypeFor[L[[2]Bv9, N2]]()},
	{"L[[2]Bv9, N3]", reflect.TypeFor[L[[2]Bv9, N3]]()},
	{"[2][2]Bv9", reflect.TypeFor[[2][2]Bv9]()},
	{"*[2]Bv9", reflect.TypeFor[*[2]Bv9]()},
	{"S3[uint8, [2]Bv9, L[byte, N3]]", reflect.TypeFor[S3[uint8, [2]Bv9, L[byte, N3]]]()},
	{"L[S3[uint8, Bv9, uint16], N2]", reflect.TypeFor[L[S3[uint8, Bv9, uint16], N2]]()},
	{"L[S3[uint8, Bv9, uint16], N3]", reflect.TypeFor[L[S3[uint8, Bv9, uint16], N3]]()},
	{"[2]S3[uint8, Bv9, uint16]", reflect.TypeFor[[2]S3[uint8, Bv9, uint16]]()},
	{"*S3[uint8, Bv9, uint16]", reflect.TypeFor[*S3[uint8, Bv9, uint16]]()},
	{"S3[uint8, S3[uint8, Bv9, uint16], L[byte, N3]]", reflect.TypeFor[S3[uint8, S3[uint8, Bv9, uint16], L[byte, N3]]]()},
	{"L[S1[Bv9], N2]", reflect.TypeFor[L[S1[Bv9], N2]]()},
	{"L[S1[Bv9], N3]", reflect.TypeFor[L[S1[Bv9], N3]]()},
	{"[2]S1[Bv9]", reflect.TypeFor[[2]S1[Bv9]]()},
	{"*S1[Bv9]", reflect.TypeFor[*S1[Bv9]]()},
	{"S3[uint8, S1[Bv9], L[byte, N3]]", reflect.TypeFor[S3[uint8, S1[Bv9], L[byte, N3]]]()},
	{"L[*Bv9, N2]", reflect.TypeFor[L[*Bv9, N2]]()},
	{"L[*Bv9, N3]", reflect.TypeFor[L[*Bv9, N3]]()},
	{"[2]*Bv9", reflect.TypeFor[[2]*Bv9]()},
	{"**Bv9", reflect.TypeFor[**Bv9]()},
	{"S3[uint8, *Bv9, L[byte, N3]]", reflect.TypeFor[S3[uint8, *Bv9, L[byte, N3]]]()},
}

var Level4 = []Entry{
	{"L[L[L[L[byte, N5], N2], N2], N2]", reflect.TypeFor[L[L[L[L[byte, N5], N2], N2], N2]]()},
	{"[2]L[L[L[byte, N5], N2], N2]", reflect.TypeFor[[2]L[L[L[byte, N5], N2], N2]]()},
	{"S3[L[byte, N3], L[L[L[byte, N5], N2], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], L[L[L[byte, N5], N2], N2], uint16]]()},
	{"*L[L[L[byte, N5], N2], N2]", reflect.TypeFor[*L[L[L[byte, N5], N2], N2]]()},
	{"L[L[[2]L[byte, N5], N2], N2]", reflect.TypeFor[L[L[[2]L[byte, N5], N2], N2]]()},
	{"[2]L[[2]L[byte, N5], N2]", reflect.TypeFor[[2]L[[2]L[byte, N5], N2]]()},
	{"S3[L[byte, N3], L[[2]L[byte, N5], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], L[[2]L[byte, N5], N2], uint16]]()},
	{"*L[[2]L[byte, N5], N2]", reflect.TypeFor[*L[[2]L[byte, N5], N2]]()},
	{"L[L[S1[L[byte, N5]], N2], N2]", reflect.TypeFor[L[L[S1[L[byte, N5]], N2], N2]]()},
	{"[2]L[S1[L[byte, N5]], N2]", reflect.TypeFor[[2]L[S1[L[byte, N5]], N2]]()},
	{"S3[L[byte, N3], L[S1[L[byte, N5]], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], L[S1[L[byte, N5]], N2], uint16]]()},
	{"*L[S1[L[byte, N5]], N2]", reflect.TypeFor[*L[S1[L[byte, N5]], N2]]()},
	{"L[[2]L[L[byte, N5], N2], N2]", reflect.TypeFor[L[[2]L[L[byte, N5], N2], N2]]()},
	{"[2][2]L[L[byte, N5], N2]", reflect.TypeFor[[2][2]L[L[byte, N5], N2]]()},
	{"S3[L[byte, N3], [2]L[L[byte, N5], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], [2]L[L[byte, N5], N2], uint16]]()},
	{"*[2]L[L[byte, N5], N2]", reflect.TypeFor[*[2]L[L[byte, N5], N2]]()},
	{"L[L[L[S3[uint8, L[uint16, N3], uint32], N2], N2], N2]", reflect.TypeFor[L[L[L[S3[uint8, L[uint16, N3], uint32], N2], N2], N2]]()},
	{"[2]L[L[S3[uint8, L[uint16, N3], uint32], N2], N2]", reflect.TypeFor[[2]L[L[S3[uint8, L[uint16, N3], uint32], N2], N2]]()},
	{"S3[L[byte, N3], L[L[S3[uint8, L[uint16, N3], uint32], N2], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], L[L[S3[uint8, L[uint16, N3], uint32], N2], N2], uint16]]()},
	{"*L[L[S3[uint8, L[uint16, N3], uint32], N2], N2]", reflect.TypeFor[*L[L[S3[uint8, L[uint16, N3], uint32], N2], N2]]()},
	{"L[S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]], N2]", reflect.TypeFor[L[S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]], N2]]()},
	{"[2]S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]", reflect.TypeFor[[2]S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]]()},
	{"S3[L[byte, N3], S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]], uint16]", reflect.TypeFor[S3[L[byte, N3], S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]], uint16]]()},
	{"*S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]", reflect.TypeFor[*S3[uint8, L[S3[uint8, L[uint16, N3], uint32], N2], L[byte, N3]]]()},
	{"L[L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2], N2]", reflect.TypeFor[L[L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2], N2]]()},
	{"[2]L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2]", reflect.TypeFor[[2]L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2]]()},
	{"S3[L[byte, N3], L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2], uint16]]()},
	{"*L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2]", reflect.TypeFor[*L[S3[uint8, S3[uint8, L[uint16, N3], uint32], uint16], N2]]()},
	{"L[*L[S3[uint8, L[uint16, N3], uint32], N2], N2]", reflect.TypeFor[L[*L[S3[uint8, L[uint16, N3], uint32], N2], N2]]()},
	{"[2]*L[S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[[2]*L[S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"S3[L[byte, N3], *L[S3[uint8, L[uint16, N3], uint32], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], *L[S3[uint8, L[uint16, N3], uint32], N2], uint16]]()},
	{"**L[S3[uint8, L[uint16, N3], uint32], N2]", reflect.TypeFor[**L[S3[uint8, L[uint16, N3], uint32], N2]]()},
	{"L[L[*S3[uint8, L[uint16, N3], uint32], N3], N2]", reflect.TypeFor[L[L[*S3[uint8, L[uint16, N3], uint32], N3], N2]]()},
	{"[2]L[*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[[2]L[*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"S3[L[byte, N3], L[*S3[uint8, L[uint16, N3], uint32], N3], uint16]", reflect.TypeFor[S3[L[byte, N3], L[*S3[uint8, L[uint16, N3], uint32], N3], uint16]]()},
	{"*L[*S3[uint8, L[uint16, N3], uint32], N3]", reflect.TypeFor[*L[*S3[uint8, L[uint16, N3], uint32], N3]]()},
	{"L[S1[[2]S3[uint8, L[uint16, N3], uint32]], N2]", reflect.TypeFor[L[S1[[2]S3[uint8, L[uint16, N3], uint32]], N2]]()},
	{"[2]S1[[2]S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[[2]S1[[2]S3[uint8, L[uint16, N3], uint32]]]()},
	{"S3[L[byte, N3], S1[[2]S3[uint8, L[uint16, N3], uint32]], uint16]", reflect.TypeFor[S3[L[byte, N3], S1[[2]S3[uint8, L[uint16, N3], uint32]], uint16]]()},
	{"*S1[[2]S3[uint8, L[uint16, N3], uint32]]", reflect.TypeFor[*S1[[2]S3[uint8, L[uint16, N3], uint32]]]()},
	{"L[L[L[[32]byte, N2], N2], N2]", reflect.TypeFor[L[L[L[[32]byte, N2], N2], N2]]()},
	{"[2]L[L[[32]byte, N2], N2]", reflect.TypeFor[[2]L[L[[32]byte, N2], N2]]()},
	{"S3[L[byte, N3], L[L[[32]byte, N2], N2], uint16]", reflect.TypeFor[S3[L[byte, N3], L[L[[32]byte, N2], N2], uint16]]()},
	{"*L[L[[32]byte, N2], N2]", reflect.TypeFor[*L[L[[32]byte, N2], N2]]()},
	{"L[L[L[uint16, N3], N3], N2]", reflect.TypeFor[L[L[L[uint16, N3], N3], N2]]()},
	{"[2]L[L[uint16, N3], N3]", reflect.TypeFor[[2]L[L[uint16, N3], N3]]()},
	{"S3[L[byte, N3], L[L[uint16, N3], N3], uint16]", reflect.TypeFor[S3[L[byte, N3], L[L[uint16, N3], N3], uint16]]()},
	{"*L[L[uint16, N3], N3]", reflect.TypeFor[*L[L[uint16, N3], N3]]()},
}

var Big = []Entry{
	{"L[L[byte, N67108864], N3]", reflect.TypeFor[L[L[byte, N67108864], N3]]()},
	{"L[BL[N67108864], N3]", reflect.TypeFor[L[BL[N67108864], N3]]()},
	{"L[L[uint64, N1048576], N3]", reflect.TypeFor[L[L[uint64, N1048576], N3]]()},
	{"[2]L[byte, N67108864]", reflect.TypeFor[[2]L[byte, N67108864]]()},
	{"S3[uint8, L[byte, N67108864], L[byte, N67108864]]", reflect.TypeFor[S3[uint8, L[byte, N67108864], L[byte, N67108864]]]()},
	{"L[S2[uint8, L[byte, N1048576]], N1024]", reflect.TypeFor[L[S2[uint8, L[byte, N1048576]], N1024]]()},
	{"L[L[byte, N70000], N1024]", reflect.TypeFor[L[L[byte, N70000], N1024]]()},
	{"L[[32]byte, N70000]", reflect.TypeFor[L[[32]byte, N70000]]()},
	{"L[S3[uint16, uint64, bool], N70000]", reflect.TypeFor[L[S3[uint16, uint64, bool], N70000]]()},
	{"L[S3[uint16, uint64, bool], N1099511627776]", reflect.TypeFor[L[S3[uint16, uint64, bool], N1099511627776]]()},
	{"L[[32]byte, N1099511627776]", reflect.TypeFor[L[[32]byte, N1099511627776]]()},
	{"L[L[byte, N1099511627776], N1099511627776]", reflect.TypeFor[L[L[byte, N1099511627776], N1099511627776]]()},
	{"L[[48]byte, N1024]", reflect.TypeFor[L[[48]byte, N1024]]()},
	{"L[byte, N70000]", reflect.TypeFor[L[byte, N70000]]()},
	{"L[uint16, N70000]", reflect.TypeFor[L[uint16, N70000]]()},
	{"L[uint32, N70000]", reflect.TypeFor[L[uint32, N70000]]()},
	{"L[uint64, N70000]", reflect.TypeFor[L[uint64, N70000]]()},
	{"L[bool, N70000]", reflect.TypeFor[L[bool, N70000]]()},
	{"L[[3]byte, N70000]", reflect.TypeFor[L[[3]byte, N70000]]()},
	{"L[*uint64, N70000]", reflect.TypeFor[L[*uint64, N70000]]()},
	{"L[L[byte, N5], N70000]", reflect.TypeFor[L[L[byte, N5], N70000]]()},
	{"L[BL[N9], N70000]", reflect.TypeFor[L[BL[N9], N70000]]()},
	{"L[S1[bool], N70000]", reflect.TypeFor[L[S1[bool], N70000]]()},
	{"L[*S3[uint8, L[uint16, N3], uint32], N70000]", reflect.TypeFor[L[*S3[uint8, L[uint16, N3], uint32], N70000]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], N70000]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], N70000]]()},
	{"L[*S3[uint16, uint64, bool], N70000]", reflect.TypeFor[L[*S3[uint16, uint64, bool], N70000]]()},
	{"BL[N70000]", reflect.TypeFor[BL[N70000]]()},
	{"S2[uint8, L[uint16, N70000]]", reflect.TypeFor[S2[uint8, L[uint16, N70000]]]()},
	{"[257]uint16", reflect.TypeFor[[257]uint16]()},
	{"[300]uint64", reflect.TypeFor[[300]uint64]()},
	{"[1000]bool", reflect.TypeFor[[1000]bool]()},
	{"[1100]byte", reflect.TypeFor[[1100]byte]()},
	{"[513]uint32", reflect.TypeFor[[513]uint32]()},
	{"[100]*uint64", reflect.TypeFor[[100]*uint64]()},
	{"[70]L[byte, N5]", reflect.TypeFor[[70]L[byte, N5]]()},
	{"[70][3]byte", reflect.TypeFor[[70][3]byte]()},
	{"[2]L[uint64, N70000]", reflect.TypeFor[[2]L[uint64, N70000]]()},
}

var Dynamic = []Entry{
	{"L[byte, D]", reflect.TypeFor[L[byte, D]]()},
	{"BL[D]", reflect.TypeFor[BL[D]]()},
	{"L[bool, D]", reflect.TypeFor[L[bool, D]]()},
	{"L[uint16, D]", reflect.TypeFor[L[uint16, D]]()},
	{"L[uint32, D]", reflect.TypeFor[L[uint32, D]]()},
	{"L[uint64, D]", reflect.TypeFor[L[uint64, D]]()},
	{"L[[32]byte, D]", reflect.TypeFor[L[[32]byte, D]]()},
	{"L[[3]byte, D]", reflect.TypeFor[L[[3]byte, D]]()},
	{"L[S3[uint16, uint64, bool], D]", reflect.TypeFor[L[S3[uint16, uint64, bool], D]]()},
	{"L[S3[uint8, L[uint16, N3], uint32], D]", reflect.TypeFor[L[S3[uint8, L[uint16, N3], uint32], D]]()},
	{"L[L[byte, N5], D]", reflect.TypeFor[L[L[byte, N5], D]]()},
	{"L[S1[bool], D]", reflect.TypeFor[L[S1[bool], D]]()},
	{"L[BL[D], N3]", reflect.TypeFor[L[BL[D], N3]]()},
	{"L[*uint64, D]", reflect.TypeFor[L[*uint64, D]]()},
	{"S2[uint8, L[uint16, D]]", reflect.TypeFor[S2[uint8, L[uint16, D]]]()},
	{"[2]L[uint16, D]", reflect.TypeFor[[2]L[uint16, D]]()},
}

var DynMore = []Entry{
	{"S2[L[uint16, D], uint8]", reflect.TypeFor[S2[L[uint16, D], uint8]]()},
	{"S3[BL[D], uint16, L[byte, D]]", reflect.TypeFor[S3[BL[D], uint16, L[byte, D]]]()},
	{"S2[L[uint64, D], L[L[byte, N5], D]]", reflect.TypeFor[S2[L[uint64, D], L[L[byte, N5], D]]]()},
	{"S2[S2[uint8, L[bool, D]], L[[3]byte, D]]", reflect.TypeFor[S2[S2[uint8, L[bool, D]], L[[3]byte, D]]]()},
	{"S2[L[uint32, D], BL[D]]", reflect.TypeFor[S2[L[uint32, D], BL[D]]]()},
}
