package universe

import (
	"fmt"
	"reflect"
)

// Wide returns containers with many fields.
func Wide() []Entry {
	u8, u16, vb := FieldPool[0], Entry{"uint16", reflect.TypeFor[uint16]()}, FieldPool[8]
	var out []Entry
	add := func(name string, n int, field func(i int) Entry) {
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("W%d", i), Type: field(i).T}
		}
		out = append(out, Entry{fmt.Sprintf("wide %d %s", n, name), reflect.StructOf(fs)})
	}
	for _, n := range []int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300} {
		if n < 100 || n%2 == 0 {
			add("uint16", n, func(int) Entry { return u16 })
			add("L[byte,5]", n, func(int) Entry { return vb })
		}
		if n < 100 || n%2 == 1 || n == 300 {
			add("last L[byte,5]", n, func(i int) Entry {
				if i == n-1 {
					return vb
				}
				return u8
			})
			add("pool", n, func(i int) Entry { return FieldPool[(i*7+n)%len(FieldPool)] })
		}
	}
	return out
}

// Tall returns deeply nested types.
func Tall() []Entry {
	var out []Entry
	add := func(name string, depth int, t reflect.Type, wrap func(i int, t reflect.Type) reflect.Type) {
		for i := 0; i < depth; i++ {
			t = wrap(i, t)
		}
		out = append(out, Entry{fmt.Sprintf("tall %d %s", depth, name), t})
	}
	str := func(fs ...reflect.Type) reflect.Type {
		sf := make([]reflect.StructField, len(fs))
		for i := range fs {
			sf[i] = reflect.StructField{Name: fieldNames[i], Type: fs[i]}
		}
		return reflect.StructOf(sf)
	}
	u8, vb := reflect.TypeFor[uint8](), reflect.TypeFor[L[byte, N5]]()
	for _, leaf := range []struct {
		name string
		t    reflect.Type
	}{{"u16", reflect.TypeFor[uint16]()}, {"bytes", vb}, {"bits", reflect.TypeFor[BL[N9]]()}} {
		for _, d := range []int{5, 9, 17} {
			add("structs of "+leaf.name, d, leaf.t, func(i int, t reflect.Type) reflect.Type { return str(t) })
			add("structs with neighbours of "+leaf.name, d, leaf.t, func(i int, t reflect.Type) reflect.Type {
				switch i % 3 {
				case 0:
					return str(u8, t)
				case 1:
					return str(t, vb)
				}
				return str(vb, t, u8)
			})
			add("vectors of "+leaf.name, d, leaf.t, func(i int, t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) })
			add("pointers of "+leaf.name, d, leaf.t, func(i int, t reflect.Type) reflect.Type { return reflect.PointerTo(t) })
			add("pointers, structs and vectors of "+leaf.name, d, leaf.t, func(i int, t reflect.Type) reflect.Type {
				switch i % 3 {
				case 0:
					return reflect.PointerTo(t)
				case 1:
					return str(t)
				}
				return reflect.ArrayOf(1+i%2, t)
			})
		}
	}
	return append(out,
		Entry{"tall lists 6", reflect.TypeFor[L[L[L[L[L[L[uint16, N2], N2], N2], N2], N2], N2]]()},
		Entry{"tall lists 9", reflect.TypeFor[L[L[L[L[L[L[L[L[L[byte, N2], N1], N2], N1], N2], N1], N1], N2], N1]]()},
		Entry{"tall lists and structs", reflect.TypeFor[L[S2[uint8, L[S1[L[S2[L[S1[*L[byte, N3]], N2], uint16], N2]], N2]], N2]]()},
	)
}

type (
	m4[T any]  = L[L[L[L[T, N1], N1], N1], N1]
	m16[T any] = m4[m4[m4[m4[T]]]]
)

// Deepest returns a few types of dozens to hundreds of levels.
func Deepest() []Entry {
	var out []Entry
	u8, vb := reflect.TypeFor[uint8](), reflect.TypeFor[L[byte, N5]]()
	str := func(fs ...reflect.Type) reflect.Type {
		sf := make([]reflect.StructField, len(fs))
		for i := range fs {
			sf[i] = reflect.StructField{Name: fieldNames[i], Type: fs[i]}
		}
		return reflect.StructOf(sf)
	}
	ptr, one := reflect.PointerTo, func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }
	for _, d := range []int{33, 66, 131, 258} {
		for _, k := range []struct {
			name string
			leaf reflect.Type
			wrap func(t reflect.Type) reflect.Type
		}{
			{"structs of bytes", vb, func(t reflect.Type) reflect.Type { return str(t) }},
			{"structs with neighbours of u16", reflect.TypeFor[uint16](), func(t reflect.Type) reflect.Type { return str(u8, t) }},
			{"pointers of bytes", vb, ptr},
			{"vectors of bits", reflect.TypeFor[BL[N9]](), one},
			{"vectors of pointers of structs of u8", u8, func(t reflect.Type) reflect.Type { return one(ptr(str(t))) }},
		} {
			if d > 70 && k.leaf.Kind() != reflect.Slice {
				continue // many leaves: too dear
			}
			t := k.leaf
			for i := 0; i < d; i++ {
				t = k.wrap(t)
			}
			out = append(out, Entry{fmt.Sprintf("deep %d %s", d, k.name), t})
		}
	}
	return append(out,
		Entry{"deep 33 lists", reflect.TypeFor[m16[m16[L[byte, N5]]]]()},
		Entry{"deep 65 lists", reflect.TypeFor[m16[m16[m16[m16[L[uint16, N2]]]]]]()},
	)
}

// Long returns vectors of many lengths.
func Long() []Entry {
	var out []Entry
	ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 28, 31, 32, 33, 34, 40, 48, 56, 63, 64, 65, 80, 96, 100, 127, 128, 129, 160, 200, 255, 256, 257, 300, 320, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025}
	add := func(t reflect.Type, top int) {
		for _, n := range ns {
			if n <= top {
				a := reflect.ArrayOf(n, t)
				out = append(out, Entry{fmt.Sprintf("long %v", a), a})
			}
		}
	}
	add(reflect.TypeFor[uint8](), 1025)
	add(reflect.TypeFor[uint16](), 600)
	add(reflect.TypeFor[uint32](), 320)
	add(reflect.TypeFor[uint64](), 160)
	add(reflect.TypeFor[bool](), 1025)
	add(reflect.TypeFor[S2[uint8, uint16]](), 65)
	add(reflect.TypeFor[[2]uint8](), 129)
	add(reflect.TypeFor[[32]uint8](), 34)
	add(reflect.TypeFor[L[byte, N5]](), 65)
	add(reflect.TypeFor[BL[N9]](), 33)
	add(reflect.TypeFor[*uint32](), 33)
	add(reflect.TypeFor[Bv9](), 33)
	return out
}
