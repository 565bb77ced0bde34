package model

// Bounded-exhaustive enumeration of abstract values: all shapes (list lengths) up to the bound, three fills of each
// shape, and every single-leaf deviation over a leaf alphabet.

type Bound struct {
	TopLen   int // all lengths 0..TopLen of a top-level list (elements), bytes and bits
	TopByte  int
	TopBit   int
	ShapeCap int // cap on the shapes of one (sub)type before falling back to deviations
	Leaves   int // number of leaf positions that get the single-leaf deviations
	FullLeaf bool
	MaxItems uint64 // do not build lists longer than this many items (limits may be huge)
}

func QuickBound() Bound {
	return Bound{TopLen: 12, TopByte: 70, TopBit: 80, ShapeCap: 40, Leaves: 24, FullLeaf: true, MaxItems: 600}
}
func ThoroughBound() Bound {
	return Bound{TopLen: 40, TopByte: 300, TopBit: 600, ShapeCap: 300, Leaves: 80, FullLeaf: true, MaxItems: 2000}
}
func DeepBound() Bound {
	return Bound{TopLen: 100, TopByte: 1100, TopBit: 2200, ShapeCap: 1000, Leaves: 300, FullLeaf: true, MaxItems: 5000}
}
func SmallBound() Bound {
	return Bound{TopLen: 3, TopByte: 4, TopBit: 9, ShapeCap: 8, Leaves: 6, MaxItems: 40}
}

func upto(n, limit uint64) []uint64 {
	var o []uint64
	for i := uint64(0); i <= n && i <= limit; i++ {
		o = append(o, i)
	}
	return o
}

func addLens(o []uint64, limit, maxItems uint64, xs ...uint64) []uint64 {
next:
	for _, x := range xs {
		if x > limit || x > maxItems {
			continue
		}
		for _, y := range o {
			if x == y {
				continue next
			}
		}
		o = append(o, x)
	}
	return o
}

func lens(s *Schema, b *Bound, depth int) []uint64 {
	lim := s.N
	below := lim
	if below > 0 {
		below--
	}
	switch s.Kind {
	case KList:
		switch depth {
		case 0:
			o := upto(uint64(b.TopLen), lim)
			o = addLens(o, lim, b.MaxItems, below, lim)
			if s.Elem.basic() || s.Elem.Kind == KBytesN {
				o = addLens(o, lim, b.MaxItems, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257)
			}
			return o
		case 1:
			return addLens(upto(3, lim), lim, 9, lim)
		case 2:
			return upto(2, lim)
		}
		return upto(1, lim)
	case KBytes:
		switch depth {
		case 0:
			return addLens(upto(uint64(b.TopByte), lim), lim, b.MaxItems, below, lim, 95, 96, 97, 127, 128, 129, 255, 256, 257)
		case 1:
			return addLens(addLens(upto(2, lim), lim, 64, 5, 31, 32, 33), lim, 9, below, lim)
		case 2:
			return addLens(upto(1, lim), lim, 9, lim)
		}
		return upto(1, lim)
	case KBitlist:
		switch depth {
		case 0:
			return addLens(upto(uint64(b.TopBit), lim), lim, b.MaxItems, below, lim, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 263, 264, 265, 503, 504, 505, 507, 510, 511, 512, 513)
		case 1:
			return addLens(upto(2, lim), lim, 300, 6, 7, 8, 9, 16, below, lim)
		}
		return addLens(upto(1, lim), lim, 16, 7, 8, lim)
	}
	return nil
}

// Shapes enumerates zero-filled skeletons.
func Shapes(s *Schema, b *Bound, depth int) []*Val {
	limit := b.ShapeCap
	if depth == 0 {
		limit *= 4
	}
	for d := 1; d < depth; d++ {
		limit /= 2
	}
	if limit < 3 {
		limit = 3
	}
	switch s.Kind {
	case KBool, KUint:
		return []*Val{{}}
	case KCustom:
		return []*Val{{}, {U: 1}, {U: 2}, {U: 3}}
	case KBytesN, KBitvec:
		return []*Val{{B: make([]byte, s.N)}}
	case KBytes, KBitlist:
		var o []*Val
		for _, n := range lens(s, b, depth) {
			o = append(o, &Val{B: make([]byte, n)})
		}
		return o
	case KPtr:
		return Shapes(s.Elem, b, depth)
	case KVec:
		subs := Shapes(s.Elem, b, depth+1)
		return seqs(subs, int(s.N), limit)
	case KList:
		subs := Shapes(s.Elem, b, depth+1)
		var o []*Val
		for _, n := range lens(s, b, depth) {
			o = append(o, seqs(subs, int(n), limit)...)
		}
		return o
	case KCont:
		opts := make([][]*Val, len(s.Fields))
		d := depth
		if len(s.Fields) > 1 {
			d = depth + 1
		}
		for i, f := range s.Fields {
			opts[i] = Shapes(f.S, b, d)
		}
		return product(opts, limit)
	}
	panic("unreachable")
}

// seqs: all sequences of length n over subs, or a covering subset when there are more than limit.
func seqs(subs []*Val, n int, limit int) []*Val {
	opts := make([][]*Val, n)
	for i := range opts {
		opts[i] = subs
	}
	return product(opts, limit)
}

// product of the options, or when larger than limit: all rotations (every option at every position next to different
// neighbours), all uniform choices, and all single deviations from the all-first and all-last choices, up to 2*limit.
func product(opts [][]*Val, limit int) []*Val {
	n := len(opts)
	total := 1
	maxOpt := 0
	for _, o := range opts {
		if len(o) == 0 {
			return nil
		}
		if total <= limit {
			total *= len(o)
		}
		if len(o) > maxOpt {
			maxOpt = len(o)
		}
	}
	var out []*Val
	emit := func(pick func(i int) int) {
		v := &Val{E: make([]*Val, n)}
		for i := range v.E {
			v.E[i] = opts[i][pick(i)%len(opts[i])]
		}
		out = append(out, v)
	}
	if total <= limit {
		idx := make([]int, n)
		for {
			emit(func(i int) int { return idx[i] })
			k := n - 1
			for k >= 0 {
				idx[k]++
				if idx[k] < len(opts[k]) {
					break
				}
				idx[k] = 0
				k--
			}
			if k < 0 {
				return out
			}
		}
	}
	for r := 0; r < maxOpt; r++ {
		emit(func(i int) int { return r })
		if n > 1 && maxOpt <= 4*limit { // deep types: no doubling at every level
			emit(func(i int) int { return r + i })
		}
	}
	last := func(i int) int { return len(opts[i]) - 1 }
	for k := 0; k < n; k++ {
		for r := 1; r < len(opts[k]); r++ {
			if len(out) >= 2*limit {
				return out
			}
			emit(func(i int) int {
				if i == k {
					return r
				}
				return 0
			})
			emit(func(i int) int {
				if i == k {
					return r - 1
				}
				return last(i)
			})
		}
	}
	return out
}

type Fill int

const (
	FillZero Fill = iota
	FillCount
	FillOnes
	NumFills
)

// Filled returns a copy of the skeleton with all leaves filled.
func Filled(s *Schema, sk *Val, f Fill) *Val {
	v := sk.Copy()
	c := uint64(0)
	fill(s, v, f, &c)
	return v
}

func ones(size int) uint64 { return ^uint64(0) >> (64 - 8*size) }

func fill(s *Schema, v *Val, f Fill, c *uint64) {
	next := func() byte { *c++; return byte(*c%251) + 1 }
	switch s.Kind {
	case KBool:
		switch f {
		case FillCount:
			v.U = uint64(next()) & 1
		case FillOnes:
			v.U = 1
		}
	case KUint:
		switch f {
		case FillCount:
			for i := 0; i < s.Size; i++ {
				v.U |= uint64(next()) << (8 * i)
			}
		case FillOnes:
			v.U = ones(s.Size)
		}
	case KBytesN, KBytes:
		for i := range v.B {
			switch f {
			case FillCount:
				v.B[i] = next()
			case FillOnes:
				v.B[i] = 0xff
			}
		}
	case KBitvec, KBitlist:
		*c++
		for i := range v.B {
			switch f {
			case FillCount:
				v.B[i] = byte((uint64(i)*7 + uint64(i)/5 + *c*3) % 5 % 2)
			case FillOnes:
				v.B[i] = 1
			}
		}
	case KPtr:
		fill(s.Elem, v, f, c)
	case KVec, KList:
		for _, e := range v.E {
			fill(s.Elem, e, f, c)
		}
	case KCont:
		for i, e := range v.E {
			fill(s.Fields[i].S, e, f, c)
		}
	}
}

// Values calls yield for every value in the bound; it stops when yield returns false.
func Values(s *Schema, b *Bound, yield func(*Val) bool) {
	shapes := Shapes(s, b, 0)
	for _, sk := range shapes {
		for f := FillZero; f < NumFills; f++ {
			if !yield(Filled(s, sk, f)) {
				return
			}
		}
	}
	// leaf deviations on the largest skeleton with a bounded number of leaves, zero- and ones-filled
	var best *Val
	bestN := -1
	for _, sk := range shapes {
		n := leafCount(s, sk)
		if n <= 4*b.Leaves && n > bestN {
			best, bestN = sk, n
		}
	}
	if best == nil && len(shapes) > 0 {
		best = shapes[0]
	}
	if best == nil {
		return
	}
	for _, f := range []Fill{FillZero, FillOnes, FillCount} {
		base := Filled(s, best, f)
		left := b.Leaves
		if !deviate(s, base, base, b, &left, bestN == 1, yield) {
			return
		}
	}
}

func leafCount(s *Schema, v *Val) int {
	switch s.Kind {
	case KPtr:
		return leafCount(s.Elem, v)
	case KVec, KList:
		n := 0
		for _, e := range v.E {
			n += leafCount(s.Elem, e)
		}
		return n
	case KCont:
		n := 0
		for i, e := range v.E {
			n += leafCount(s.Fields[i].S, e)
		}
		return n
	case KBytes, KBytesN:
		return 1 + len(v.B)/8
	case KBitlist, KBitvec:
		return 1 + len(v.B)/16
	}
	return 1
}

// deviate changes one leaf at a time inside root (v is a node of root), restoring it afterwards.
func deviate(s *Schema, root, v *Val, b *Bound, left *int, single bool, yield func(*Val) bool) bool {
	try := func(u uint64) bool {
		old := v.U
		if old == u {
			return true
		}
		v.U = u
		ok := yield(root)
		v.U = old
		return ok
	}
	switch s.Kind {
	case KPtr:
		return deviate(s.Elem, root, v, b, left, single, yield)
	case KVec, KList:
		for _, e := range v.E {
			if *left <= 0 {
				return true
			}
			if !deviate(s.Elem, root, e, b, left, single, yield) {
				return false
			}
		}
		return true
	case KCont:
		for i, e := range v.E {
			if *left <= 0 {
				return true
			}
			if !deviate(s.Fields[i].S, root, e, b, left, single, yield) {
				return false
			}
		}
		return true
	case KBool:
		*left--
		return try(0) && try(1)
	case KCustom:
		*left--
		return try(0) && try(1) && try(2) && try(3)
	case KUint:
		*left--
		if single && b.FullLeaf {
			if s.Size <= 2 {
				for u := uint64(0); u <= ones(s.Size); u++ {
					if !try(u) {
						return false
					}
				}
				return true
			}
			for i := 0; i < s.Size; i++ {
				for x := uint64(0); x < 256; x++ {
					if !try(x<<(8*i)) || !try(ones(s.Size)&^(0xff<<(8*i))|x<<(8*i)) {
						return false
					}
				}
			}
		}
		for i := 0; i < 8*s.Size; i++ {
			if i%8 == 0 || i%8 == 7 || single {
				if !try(1<<i) || !try(ones(s.Size)&^(1<<i)) || !try(1<<i-1) {
					return false
				}
			}
		}
		return true
	case KBytesN, KBytes:
		*left--
		for i := range v.B {
			if len(v.B) > 40 && i%31 > 1 && i < len(v.B)-2 {
				continue
			}
			old := v.B[i]
			for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				v.B[i] = x
				if x != old && !yield(root) {
					return false
				}
			}
			v.B[i] = old
		}
		return true
	case KBitvec, KBitlist:
		*left--
		for i := range v.B {
			if len(v.B) > 80 && i%8 != 0 && i%8 != 7 && i < len(v.B)-9 {
				continue
			}
			v.B[i] ^= 1
			ok := yield(root)
			v.B[i] ^= 1
			if !ok {
				return false
			}
		}
		return true
	}
	panic("unreachable")
}

// MaxVal builds the largest value (all lists at their limit); ok=false when it has more than maxItems leaves.
func MaxVal(s *Schema, maxItems uint64) (*Val, bool) {
	left := int64(maxItems)
	v := maxVal(s, &left)
	return v, left >= 0
}

func maxVal(s *Schema, left *int64) *Val {
	if *left < 0 {
		return &Val{}
	}
	switch s.Kind {
	case KBool, KUint:
		*left--
		return &Val{U: 1}
	case KCustom:
		*left--
		return &Val{U: 3}
	case KBytesN, KBytes, KBitvec, KBitlist:
		if s.N > 1<<40 {
			*left = -1
			return &Val{}
		}
		*left -= int64(s.N)/32 + 1
		if *left < 0 {
			return &Val{}
		}
		v := &Val{B: make([]byte, s.N)}
		for i := range v.B {
			v.B[i] = 1
		}
		return v
	case KPtr:
		return maxVal(s.Elem, left)
	case KVec, KList:
		v := &Val{E: []*Val{}}
		for i := uint64(0); i < s.N; i++ {
			if *left < 0 {
				return v
			}
			*left--
			v.E = append(v.E, maxVal(s.Elem, left))
		}
		return v
	case KCont:
		v := &Val{E: []*Val{}}
		for _, f := range s.Fields {
			v.E = append(v.E, maxVal(f.S, left))
		}
		return v
	}
	panic("unreachable")
}

// MinVal: all lists empty.
func MinVal(s *Schema) *Val {
	v := &Val{}
	switch s.Kind {
	case KBytesN, KBitvec:
		v.B = make([]byte, s.N)
	case KBytes, KBitlist:
		v.B = []byte{}
	case KPtr:
		return MinVal(s.Elem)
	case KList:
		v.E = []*Val{}
	case KVec:
		v.E = []*Val{}
		for i := uint64(0); i < s.N; i++ {
			v.E = append(v.E, MinVal(s.Elem))
		}
	case KCont:
		v.E = []*Val{}
		for _, f := range s.Fields {
			v.E = append(v.E, MinVal(f.S))
		}
	}
	return v
}
