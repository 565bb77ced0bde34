package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

// event of a decode history
type event struct {
	name  string
	fuzz  bool
	data  []byte
	claim uint64
	ok    bool   // verdict on a fresh destination
	want  []byte // canonical result on a fresh destination
}

func (e *event) run(t *typ, p reflect.Value) error {
	if e.fuzz {
		_, err := zssz.DecodeFuzzBytes(bytes.NewReader(e.data), e.claim, p.Interface(), t.D)
		return err
	}
	return zssz.Decode(bytes.NewReader(e.data), e.claim, p.Interface(), t.D)
}

// decodeEvents builds a set of diverse decode calls: small, middle and large valid values, values with all bits set,
// truncated, over-limit and corrupted inputs, fuzz inputs.
func decodeEvents(t *typ, n int) []event {
	var out []event
	seen := map[string]bool{}
	add := func(name string, d []byte, claim uint64, fuzz bool) {
		k := fmt.Sprint(fuzz, claim, ":") + string(d)
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, event{name: name, fuzz: fuzz, data: append([]byte{}, d...), claim: claim})
	}
	b := model.SmallBound()
	b.ShapeCap = 30
	b.MaxItems = 12
	shapes := model.Shapes(t.S, &b, 0)
	sort.SliceStable(shapes, func(i, j int) bool { return len(model.Ser(t.S, shapes[i])) < len(model.Ser(t.S, shapes[j])) })
	last := len(shapes) - 1
	ser := func(i int, f model.Fill) []byte { return model.Ser(t.S, model.Filled(t.S, shapes[i], f)) }
	plain := func(name string, d []byte) { add(name, d, uint64(len(d)), false) }
	plain("largest, ones", ser(last, model.FillOnes))
	plain("largest, counting", ser(last, model.FillCount))
	plain("smallest", ser(0, model.FillZero))
	plain("largest, zero", ser(last, model.FillZero))
	plain("middle, counting", ser(last/2, model.FillCount))
	plain("middle, ones", ser(last/2, model.FillOnes))
	plain("small, counting", ser(min(1, last), model.FillCount))
	plain("third, ones", ser(last/3, model.FillOnes))
	plain("most, counting", ser(last*2/3, model.FillCount))
	d := ser(last, model.FillOnes)
	if len(d) > 0 {
		add("truncated stream", d[:len(d)-1], uint64(len(d)), false)
		add("half of the stream", d[:len(d)/2], uint64(len(d)), false)
		plain("last byte missing", d[:len(d)-1])
		x := append([]byte{}, d...)
		x[len(x)-1] ^= 0xfe
		plain("last byte changed", x)
		x = append([]byte{}, d...)
		x[0] += 2
		plain("first byte changed", x)
		x = append([]byte{}, ser(last/2, model.FillCount)...)
		if len(x) > 0 {
			x[len(x)/2] ^= 0x82
			plain("middle byte changed", x)
		}
	}
	plain("trailing byte", append(append([]byte{}, d...), 0))
	plain("empty input", nil)
	if fuzzInDomain(t) && t.D.FuzzMinLen() < 500 {
		m := int(t.D.FuzzMinLen())
		for _, e := range []int{30, 0, 9} {
			f := pattern(m + e)
			add(fmt.Sprintf("fuzz +%d", e), f, uint64(m+e), true)
		}
		f := bytes.Repeat([]byte{0xff}, m+17)
		add("fuzz ones", f, uint64(m+17), true)
		add("fuzz zero", make([]byte, m+12), uint64(m+12), true)
		add("fuzz truncated", f[:m], uint64(m+17), true)
	}
	for i := range out {
		p := fresh(t)
		out[i].ok = out[i].run(t, p) == nil
		if out[i].ok {
			out[i].want = valueBytes(t, p)
		}
	}
	// keep a balanced selection
	if len(out) > n {
		var sel []event
		var rest []event
		for i, e := range out {
			if i < 4 || e.fuzz && (e.name == "fuzz +30" || e.name == "fuzz truncated") || e.name == "half of the stream" || e.name == "last byte changed" {
				sel = append(sel, e)
			} else {
				rest = append(rest, e)
			}
		}
		for _, e := range rest {
			if len(sel) < n {
				sel = append(sel, e)
			}
		}
		out = sel
	}
	return out
}

var c14 = &rt.Check{
	ID: "C14", Level: "model_checking",
	Rule: "explicit exploration of all sequences of decode events (valid, invalid, truncated, fuzz; up to the depth) on one destination, from several initial destinations (zero, filled with spare capacity, filled pointers); state = distinct (type, initial destination, sequence); after each last event verdict and value are compared with a fresh destination",
	Units: func(quick bool) []rt.Unit {
		n, depth := 11, 4
		if !quick {
			n, depth = 18, 4
		}
		us := perType(heavyTypes(quick), func(c *rt.Ctx, t *typ) {
			evs := decodeEvents(t, n)
			sb := model.SmallBound()
			shapes := model.Shapes(t.S, &sb, 0)
			inits := []struct {
				name string
				mk   func() (reflect.Value, *guards)
				d    int
			}{
				{"fresh", func() (reflect.Value, *guards) { return fresh(t), nil }, depth},
				{"full, spare capacity 3", func() (reflect.Value, *guards) {
					g := &guards{}
					p := fresh(t)
					g.fillGo(t.S, model.Filled(t.S, shapes[len(shapes)-1], model.FillOnes), p.Elem(), 3)
					return p, g
				}, depth - 1},
				{"small, spare capacity 1", func() (reflect.Value, *guards) {
					g := &guards{}
					p := fresh(t)
					g.fillGo(t.S, model.Filled(t.S, shapes[min(1, len(shapes)-1)], model.FillCount), p.Elem(), 1)
					return p, g
				}, depth - 1},
				{"empty with spare capacity 70", func() (reflect.Value, *guards) {
					g := &guards{}
					p := fresh(t)
					g.fillGo(t.S, model.MinVal(t.S), p.Elem(), 70)
					return p, g
				}, depth - 2},
			}
			for _, in := range inits {
				seq := make([]int, 0, depth)
				var rec func()
				rec = func() {
					if len(seq) > 0 {
						c.State()
						c.Case(func() string {
							var s []string
							for _, i := range seq {
								s = append(s, fmt.Sprintf("%s %s", evs[i].name, hexs(evs[i].data)))
							}
							return in.name + " -> " + strings.Join(s, " -> ")
						})
						p, _ := in.mk()
						var err error
						for _, i := range seq {
							err = evs[i].run(t, p)
						}
						c.Trans(len(seq))
						e := &evs[seq[len(seq)-1]]
						if (err == nil) != e.ok {
							c.Fail("error %v; on a fresh destination success is %v", err, e.ok)
						}
						if e.ok {
							if got := valueBytes(t, p); !bytes.Equal(got, e.want) {
								c.Fail("value %x; on a fresh destination %x", got, e.want)
							}
						}
						c.Validated(1)
					}
					if len(seq) == in.d {
						return
					}
					for i := range evs {
						seq = append(seq, i)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		})
		return append(farHistories(), append(longHistories(quick), us...)...)
	},
}

// ---- purity

type span struct{ a, b uintptr }

// snapshot copies everything reachable from p, including slice headers and spare capacity.
func snapshot(t reflect.Type, p unsafe.Pointer, out []byte) []byte {
	switch t.Kind() {
	case reflect.Slice:
		h := (*[3]uintptr)(p)
		out = append(out, unsafe.Slice((*byte)(p), 3*unsafe.Sizeof(uintptr(0)))...)
		if pointerFree(t.Elem()) {
			if n := h[2] * t.Elem().Size(); n > 0 {
				out = append(out, unsafe.Slice((*byte)(*(*unsafe.Pointer)(p)), n)...)
			}
			return out
		}
		for i := uintptr(0); i < h[2]; i++ {
			out = snapshot(t.Elem(), unsafe.Add(*(*unsafe.Pointer)(p), i*t.Elem().Size()), out)
		}
	case reflect.Ptr:
		out = append(out, unsafe.Slice((*byte)(p), unsafe.Sizeof(uintptr(0)))...)
		if q := *(*unsafe.Pointer)(p); q != nil {
			out = snapshot(t.Elem(), q, out)
		}
	case reflect.Array:
		if pointerFree(t) {
			return append(out, unsafe.Slice((*byte)(p), t.Size())...)
		}
		for i := 0; i < t.Len(); i++ {
			out = snapshot(t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()), out)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			out = snapshot(t.Field(i).Type, unsafe.Add(p, t.Field(i).Offset), out)
		}
	default:
		out = append(out, unsafe.Slice((*byte)(p), t.Size())...)
	}
	return out
}

// overwrite copies the content of src into the memory of dst (same shape), keeping its slices and pointees.
func overwrite(t reflect.Type, dst, src unsafe.Pointer) {
	switch t.Kind() {
	case reflect.Slice:
		dh, sh := (*[3]uintptr)(dst), (*[3]uintptr)(src)
		if dh[1] != sh[1] {
			panic("harness: overwrite with another shape")
		}
		for i := uintptr(0); i < dh[1]; i++ {
			overwrite(t.Elem(), unsafe.Add(*(*unsafe.Pointer)(dst), i*t.Elem().Size()), unsafe.Add(*(*unsafe.Pointer)(src), i*t.Elem().Size()))
		}
	case reflect.Ptr:
		d, s := *(*unsafe.Pointer)(dst), *(*unsafe.Pointer)(src)
		if d != nil && s != nil {
			overwrite(t.Elem(), d, s)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			overwrite(t.Elem(), unsafe.Add(dst, uintptr(i)*t.Elem().Size()), unsafe.Add(src, uintptr(i)*t.Elem().Size()))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			overwrite(t.Field(i).Type, unsafe.Add(dst, t.Field(i).Offset), unsafe.Add(src, t.Field(i).Offset))
		}
	case reflect.Map, reflect.Interface, reflect.Chan, reflect.Func, reflect.String:
	default:
		copy(unsafe.Slice((*byte)(dst), t.Size()), unsafe.Slice((*byte)(src), t.Size()))
	}
}

// spans lists the memory a value owns (slices with their capacity, pointees, the object itself).
func spans(t reflect.Type, p unsafe.Pointer, out []span) []span {
	switch t.Kind() {
	case reflect.Slice:
		h := (*[3]uintptr)(p)
		es := t.Elem().Size()
		if h[2]*es > 0 {
			out = append(out, span{h[0], h[0] + h[2]*es})
		}
		if !pointerFree(t.Elem()) {
			for i := uintptr(0); i < h[1]; i++ {
				out = spans(t.Elem(), unsafe.Add(*(*unsafe.Pointer)(p), i*es), out)
			}
		}
	case reflect.Ptr:
		if q := *(*unsafe.Pointer)(p); q != nil {
			if t.Elem().Size() > 0 {
				out = append(out, span{uintptr(q), uintptr(q) + t.Elem().Size()})
			}
			out = spans(t.Elem(), q, out)
		}
	case reflect.Array:
		if !pointerFree(t.Elem()) {
			for i := 0; i < t.Len(); i++ {
				out = spans(t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()), out)
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			out = spans(t.Field(i).Type, unsafe.Add(p, t.Field(i).Offset), out)
		}
	}
	return out
}

func overlap(s []span) (span, span, bool) {
	sort.Slice(s, func(i, j int) bool { return s[i].a < s[j].a })
	for i := 1; i < len(s); i++ {
		if s[i].a < s[i-1].b {
			return s[i-1], s[i], true
		}
	}
	return span{}, span{}, false
}

// pop is one operation with everything it needs and its expected result.
type pop struct {
	name string
	t    *typ
	p    reflect.Value // value for reading operations
	run  func(d types.SSZ) string
	want string
	fix  bool // want is known from the reference model
}

func verdict(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// pureOps: the operations of one type on a few values and inputs.
func pureOps(t *typ, lite bool) []pop {
	var out []pop
	sb := model.SmallBound()
	shapes := model.Shapes(t.S, &sb, 0)
	v1 := model.Filled(t.S, shapes[len(shapes)-1], model.FillCount)
	v2 := model.Filled(t.S, shapes[min(len(shapes)/2, len(shapes)-1)], model.FillOnes)
	val := func(v *model.Val) (reflect.Value, []byte) {
		p := fresh(t) // every slice with spare capacity
		(&guards{}).fillGo(t.S, v, p.Elem(), 2)
		return p, model.Ser(t.S, v)
	}
	p1, s1 := val(v1)
	p2, s2 := val(v2)
	add := func(name string, p reflect.Value, want string, fix bool, run func(d types.SSZ) string) {
		out = append(out, pop{name: name, t: t, p: p, run: run, want: want, fix: fix})
	}
	enc := func(p reflect.Value) func(d types.SSZ) string {
		return func(d types.SSZ) string {
			var w bytes.Buffer
			n, err := zssz.Encode(&w, p.Interface(), d)
			return fmt.Sprintf("%x %d %s", w.Bytes(), n, verdict(err))
		}
	}
	dec := func(in []byte, claim uint64) func(d types.SSZ) string {
		return func(d types.SSZ) string {
			p := fresh(t)
			if err := zssz.Decode(bytes.NewReader(in), claim, p.Interface(), d); err != nil {
				return "error"
			}
			return fmt.Sprintf("%x", valueBytes(t, p))
		}
	}
	dry := func(in []byte, claim uint64) func(d types.SSZ) string {
		return func(d types.SSZ) string { return verdict(zssz.DryCheck(bytes.NewReader(in), claim, d)) }
	}
	htr := func(p reflect.Value) func(d types.SSZ) string {
		return func(d types.SSZ) string { return fmt.Sprintf("%x", zssz.HashTreeRoot(shaFn, p.Interface(), d)) }
	}
	bad := append(append([]byte{}, s1...), 0)
	_, badOK := model.Deser(t.S, bad)
	half := s1[:len(s1)/2]
	add("Encode large", p1, fmt.Sprintf("%x %d ok", s1, len(s1)), true, enc(p1))
	add("Decode large", reflect.Value{}, fmt.Sprintf("%x", s1), true, dec(s1, uint64(len(s1))))
	add("HashTreeRoot large", p1, fmt.Sprintf("%x", shaModel.HTR(t.S, v1)), true, htr(p1))
	add("Decode middle", reflect.Value{}, fmt.Sprintf("%x", s2), true, dec(s2, uint64(len(s2))))
	if len(s1) > 0 {
		add("Decode truncated stream", reflect.Value{}, "error", true, dec(half, uint64(len(s1))))
	}
	if !badOK {
		add("Decode trailing byte", reflect.Value{}, "error", true, dec(bad, uint64(len(bad))))
		add("DryCheck trailing byte", reflect.Value{}, "error", true, dry(bad, uint64(len(bad))))
	}
	add("DryCheck large", reflect.Value{}, "ok", true, dry(s1, uint64(len(s1))))
	if lite {
		return out
	}
	add("HashTreeRoot middle", p2, fmt.Sprintf("%x", shaModel.HTR(t.S, v2)), true, htr(p2))
	add("SizeOf large", p1, fmt.Sprint(len(s1)), true, func(d types.SSZ) string { return fmt.Sprint(zssz.SizeOf(p1.Interface(), d)) })
	add("Encode middle", p2, fmt.Sprintf("%x %d ok", s2, len(s2)), true, enc(p2))
	add("Encode failing writer", p1, "", false, func(d types.SSZ) string {
		w := &failWriter{failAt: 1, accept: 1}
		n, err := zssz.Encode(w, p1.Interface(), d)
		return fmt.Sprintf("%x %d %s", w.got, n, verdict(err))
	})
	add("Pretty", p1, "", false, func(d types.SSZ) string {
		var w bytes.Buffer
		zssz.Pretty(&w, " ", p1.Interface(), d)
		return w.String()
	})
	if t.S.Kind == model.KCont {
		add("SigningRoot", p1, fmt.Sprintf("%x", shaModel.SigningRoot(t.S, v1)), true, func(d types.SSZ) string {
			return fmt.Sprintf("%x", zssz.SigningRoot(shaFn, p1.Interface(), d.(types.SignedSSZ)))
		})
	}
	if fuzzInDomain(t) && t.D.FuzzMinLen() < 500 {
		f := pattern(int(t.D.FuzzMinLen()) + 21)
		fz := func(in []byte, claim uint64) func(d types.SSZ) string {
			return func(d types.SSZ) string {
				p := fresh(t)
				n, err := zssz.DecodeFuzzBytes(bytes.NewReader(in), claim, p.Interface(), d)
				if err != nil {
					return "error"
				}
				return fmt.Sprintf("%d %x", n, valueBytes(t, p))
			}
		}
		add("DecodeFuzzBytes", reflect.Value{}, "", false, fz(f, uint64(len(f))))
		if len(f) > 21 {
			add("DecodeFuzzBytes truncated stream", reflect.Value{}, "error", true, fz(f[:len(f)-21-1], uint64(len(f))))
		}
	}
	// one object whose content changes between operations: replaced in place (same slices and pointees), or by other
	// slices and pointees; results must follow the content
	v1b := model.Filled(t.S, shapes[len(shapes)-1], model.FillOnes)
	pb, _ := val(v1b)
	mov, _ := val(v1)
	base := reflect.New(t.T)
	base.Elem().Set(mov.Elem())
	inPlace := func(src reflect.Value) func() {
		return func() {
			mov.Elem().Set(base.Elem())
			overwrite(t.T, mov.UnsafePointer(), src.UnsafePointer())
		}
	}
	for _, m := range []struct {
		name string
		v    *model.Val
		set  func()
	}{
		{"object refilled in place with counting", v1, inPlace(p1)},
		{"object refilled in place with ones", v1b, inPlace(pb)},
		{"object set to middle", v2, func() { mov.Elem().Set(p2.Elem()) }},
	} {
		ser := model.Ser(t.S, m.v)
		add("HashTreeRoot of "+m.name, reflect.Value{}, fmt.Sprintf("%x", shaModel.HTR(t.S, m.v)), true, func(d types.SSZ) string {
			m.set()
			return htr(mov)(d)
		})
		add("SizeOf and Encode of "+m.name, reflect.Value{}, fmt.Sprintf("%d %x %d ok", len(ser), ser, len(ser)), true, func(d types.SSZ) string {
			m.set()
			return fmt.Sprint(zssz.SizeOf(mov.Interface(), d)) + " " + enc(mov)(d)
		})
		if t.S.Kind == model.KCont {
			add("SigningRoot of "+m.name, reflect.Value{}, fmt.Sprintf("%x", shaModel.SigningRoot(t.S, m.v)), true, func(d types.SSZ) string {
				m.set()
				return fmt.Sprintf("%x", zssz.SigningRoot(shaFn, mov.Interface(), d.(types.SignedSSZ)))
			})
		}
	}
	add("bounds", reflect.Value{}, "", false, func(d types.SSZ) string {
		return fmt.Sprint(d.MinLen(), d.MaxLen(), d.FixedLen(), d.IsFixed(), d.FuzzMinLen(), d.FuzzMaxLen())
	})
	return out
}

// readOnly: the reading operations, on a value whose slices all have spare capacity full of rubbish: nothing of the
// value, its slices up to their capacity, or the memory around them changes, and the rubbish does not get into results.
func readOnly(c *rt.Ctx, t *typ, v *model.Val, ser []byte, spare int, buf *[]byte) {
	g := &guards{}
	p := fresh(t)
	g.fillGo(t.S, v, p.Elem(), spare)
	before := snapshot(t.T, p.UnsafePointer(), (*buf)[:0])
	last := ""
	c.Case(func() string {
		return fmt.Sprintf("%s, in slices with spare capacity %d, after %s", v, spare, last)
	})
	after := func(name string) {
		last = name
		c.Trans(1)
		c.Validated(1)
		now := snapshot(t.T, p.UnsafePointer(), before[len(before):])
		if !bytes.Equal(now, before) {
			c.Fail("the value, or its slices' spare capacity, was modified")
		}
		if *buf = before; cap(now) > cap(before)-len(before) {
			*buf = append(now, now...) // room for both next time
		}
		if err := g.check(); err != nil {
			c.Fail("%v", err)
		}
	}
	got, n, err := encode(t, p)
	after("Encode")
	if err != nil || n != len(ser) || !bytes.Equal(got, ser) {
		c.Fail("encodes to %x (%d, %v), expected %x", got, n, err, ser)
	}
	size := zssz.SizeOf(p.Interface(), t.D)
	after("SizeOf")
	if size != uint64(len(ser)) {
		c.Fail("size %d, expected %d", size, len(ser))
	}
	root := zssz.HashTreeRoot(shaFn, p.Interface(), t.D)
	after("HashTreeRoot")
	if want := shaModel.HTR(t.S, v); root != want {
		c.Fail("root %x, expected %x", root, want)
	}
	if t.S.Kind == model.KCont {
		root := zssz.SigningRoot(shaFn, p.Interface(), t.D.(types.SignedSSZ))
		after("SigningRoot")
		if want := shaModel.SigningRoot(t.S, v); root != want {
			c.Fail("signing root %x, expected %x", root, want)
		}
	}
	prettyText(t, " ", p)
	after("Pretty")
}

var c22 = &rt.Check{
	ID: "C22", Level: "model_checking",
	Rule: "explicit exploration of all sequences (up to the depth) of operations (encode, decode, dry check, fuzz, hash, sign, size, pretty; succeeding and failing) on one shared definition, with operations of other definitions in between; state = distinct (type, sequence); each last result is compared with the reference model or with the result on a fresh definition; deep snapshots of the values (with the spare capacity of their slices) and of the inputs are compared, and the memory of decoded values, inputs and each other checked for overlap",
	Units: func(quick bool) []rt.Unit {
		depth := 3
		var disturb []universe.Entry
		for _, i := range []int{10, 13, 14, 5, 11, 9, 16} {
			disturb = append(disturb, universe.FieldPool[i])
		}
		us := perType(heavyTypes(quick), func(c *rt.Ctx, t *typ) {
			ops := pureOps(t, false)
			for i := range ops {
				if !ops[i].fix {
					d, err := types.SSZFactory(t.T)
					if err != nil {
						panic(err)
					}
					ops[i].want = ops[i].run(d)
				}
			}
			own := len(ops)
			for _, e := range disturb {
				x := build(c, e)
				ops = append(ops, pureOps(x, quick)...)
			}
			snaps := make([][]byte, len(ops))
			for i, o := range ops {
				if o.p.IsValid() {
					snaps[i] = snapshot(o.t.T, o.p.UnsafePointer(), nil)
				}
			}
			buf := []byte{}
			var seq []int
			run := func(def types.SSZ) {
				c.State()
				c.Case(func() string {
					var s []string
					for _, i := range seq {
						s = append(s, ops[i].t.Name+" "+ops[i].name)
					}
					return strings.Join(s, " -> ")
				})
				var got string
				for _, i := range seq {
					d := def
					if i >= own {
						d = ops[i].t.D
					}
					got = ops[i].run(d)
				}
				c.Trans(len(seq))
				c.Validated(1)
				l := seq[len(seq)-1]
				if got != ops[l].want {
					c.Fail("result %s, should be %s", clip(got, 600), clip(ops[l].want, 600))
				}
				for _, i := range seq {
					if snaps[i] != nil {
						buf = snapshot(ops[i].t.T, ops[i].p.UnsafePointer(), buf[:0])
						if !bytes.Equal(buf, snaps[i]) {
							c.Fail("the value was modified (by %s)", ops[i].name)
						}
					}
				}
			}
			var rec func(def types.SSZ)
			rec = func(def types.SSZ) {
				if len(seq) > 0 && seq[len(seq)-1] < own {
					run(def)
				}
				if len(seq) == depth {
					return
				}
				for i := range ops {
					if i >= own && len(seq) == depth-1 {
						break
					}
					seq = append(seq, i)
					rec(def)
					seq = seq[:len(seq)-1]
				}
			}
			rec(t.D)
			// sharing
			b := model.SmallBound()
			vals := 0
			model.Values(t.S, &b, func(v *model.Val) bool {
				if vals++; vals > 200 {
					return false
				}
				in := model.Ser(t.S, v)
				orig := append([]byte{}, in...)
				c.State()
				c.Case(func() string { return "decode " + hexs(in) + " twice" })
				p, q := fresh(t), fresh(t)
				e1, e2 := decodeInto(t, p, in), decodeInto(t, q, in)
				c.Trans(2)
				if e1 != nil || e2 != nil {
					c.Fail("decode failed: %v %v", e1, e2)
				}
				if !bytes.Equal(in, orig) {
					c.Fail("the input was modified")
				}
				var ss []span
				if t.T.Size() > 0 {
					ss = append(ss, span{p.Pointer(), p.Pointer() + t.T.Size()}, span{q.Pointer(), q.Pointer() + t.T.Size()})
				}
				ss = spans(t.T, p.UnsafePointer(), ss)
				ss = spans(t.T, q.UnsafePointer(), ss)
				if cap(in) > 0 {
					a := uintptr(unsafe.Pointer(&in[:1][0]))
					ss = append(ss, span{a, a + uintptr(cap(in))})
				}
				if a, b, bad := overlap(ss); bad {
					c.Fail("memory is shared between decoded values or with the input: %x..%x and %x..%x", a.a, a.b, b.a, b.b)
				}
				// from readers that offer their memory
				for _, k := range ownMemory {
					d := append(append(make([]byte, 0, len(in)+5000), in...), pattern(5000)...)
					r := k.mk(d, len(in))
					o := fresh(t)
					c.Case(func() string {
						return fmt.Sprintf("decode %s (%d trailing stream bytes) from %s, then overwrite the stream", hexs(in), 5000, k.name)
					})
					c.Trans(1)
					c.Validated(1)
					if err := zssz.Decode(r, uint64(len(in)), o.Interface(), t.D); err != nil {
						c.Fail("decode failed: %v", err)
					}
					if l, ok := r.(*io.LimitedReader); ok {
						l.N = 5000
					}
					io.Copy(io.Discard, plainReader{r})
					for i := range d {
						d[i] = 0x77
					}
					if got := fromGo(t, o); got != v.String() {
						c.Fail("the value decoded became %s instead of %s", got, v)
					}
				}
				// decoding again into p must leave q alone
				qs := snapshot(t.T, q.UnsafePointer(), nil)
				for i := range in {
					in[i] ^= 0xff
				}
				decodeInto(t, p, in)
				for i := range in {
					in[i] = 0x77
				}
				if !bytes.Equal(qs, snapshot(t.T, q.UnsafePointer(), nil)) {
					c.Fail("a decoded value changed when the input changed or another value was decoded")
				}
				if got := fromGo(t, q); got != v.String() {
					c.Fail("decoded %s instead of %s", got, v)
				}
				c.Validated(1)
				return true
			})
		})
		buf := make([]byte, 1<<16)
		us = append(longPure(quick), us...)
		return append(us, valueUnits(quick, func(c *rt.Ctx, t *typ, v *model.Val, ser []byte) {
			readOnly(c, t, v, ser, 1, &buf)
			readOnly(c, t, v, ser, 33, &buf)
		}, nil)...)
	},
}
