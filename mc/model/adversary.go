package model

import "encoding/binary"

// Adversarial serializations: the encoding of a value with one structural fault, all enclosing offsets adjusted so that
// the rest stays consistent.

type FaultKind int

const (
	FNone   FaultKind = iota
	FGap              // N junk bytes before variable part Part of object Node, offsets adjusted
	FOffset           // offset Part of object Node changed by N
	FTrail            // N junk bytes after the content of variable node Node
	FCut              // last N bytes of variable node Node dropped
	FSwap             // offsets Part and Part+1 of object Node swapped
	FDup              // offset Part of object Node set to the value of offset Part+1 (empty scope), contents kept
)

type Fault struct {
	Kind FaultKind
	Node int
	Part int
	N    int
	Junk byte
}

// NodeInfo: a variable-size node of the value tree (pre-order), Parts is its number of offsets (-1: leaf without offsets).
type NodeInfo struct{ Parts int }

type adv struct {
	f     Fault
	next  int
	nodes []NodeInfo
}

// Nodes lists the fault sites of a value.
func Nodes(s *Schema, v *Val) []NodeInfo {
	a := &adv{f: Fault{Node: -1}}
	a.ser(nil, s, v)
	return a.nodes
}

// SerFault serializes with one fault; ok is false if the fault does not apply.
func SerFault(s *Schema, v *Val, f Fault) []byte {
	a := &adv{f: f}
	return a.ser(nil, s, v)
}

func (a *adv) ser(out []byte, s *Schema, v *Val) []byte {
	if s.Kind == KPtr {
		return a.ser(out, s.Elem, v)
	}
	if s.Fixed() {
		return appendSer(out, s, v)
	}
	id := a.next
	a.next++
	start := len(out)
	a.nodes = append(a.nodes, NodeInfo{-1})
	hit := id == a.f.Node
	switch {
	case s.Kind == KBytes || s.Kind == KBitlist || s.Kind == KCustom:
		out = appendSer(out, s, v)
	case (s.Kind == KList || s.Kind == KVec) && s.Elem.Fixed():
		out = appendSer(out, s, v)
	default:
		ss := make([]*Schema, len(v.E))
		n := 0
		for i := range ss {
			if s.Kind == KCont {
				ss[i] = s.Fields[i].S
			} else {
				ss[i] = s.Elem
			}
			if !ss[i].Fixed() {
				n++
			}
		}
		a.nodes[id].Parts = n
		off := 0
		for _, e := range ss {
			off += int(slot(e))
		}
		var tail []byte
		var at []int
		k := 0
		for i, e := range ss {
			if e.Fixed() {
				out = appendSer(out, e, v.E[i])
				continue
			}
			if hit && a.f.Kind == FGap && a.f.Part == k {
				for j := 0; j < a.f.N; j++ {
					tail = append(tail, a.f.Junk)
				}
			}
			o := uint32(off + len(tail))
			if hit && a.f.Kind == FOffset && a.f.Part == k {
				o += uint32(a.f.N)
			}
			at = append(at, len(out))
			out = binary.LittleEndian.AppendUint32(out, o)
			tail = a.ser(tail, e, v.E[i])
			k++
		}
		if hit && a.f.Part+1 < len(at) {
			x, y := out[at[a.f.Part]:], out[at[a.f.Part+1]:]
			ox, oy := binary.LittleEndian.Uint32(x), binary.LittleEndian.Uint32(y)
			switch a.f.Kind {
			case FSwap:
				binary.LittleEndian.PutUint32(x, oy)
				binary.LittleEndian.PutUint32(y, ox)
			case FDup:
				binary.LittleEndian.PutUint32(x, oy)
			}
		}
		out = append(out, tail...)
	}
	if hit {
		switch a.f.Kind {
		case FTrail:
			for j := 0; j < a.f.N; j++ {
				out = append(out, a.f.Junk)
			}
		case FCut:
			out = out[:max(start, len(out)-a.f.N)]
		}
	}
	return out
}

// Faults enumerates all single faults of a value.
func Faults(s *Schema, v *Val, yield func(f Fault)) {
	nodes := Nodes(s, v)
	step := 1
	if len(nodes) > 60 {
		step = len(nodes) / 40
	}
	for id, n := range nodes {
		if id%step != 0 && id > 3 && id < len(nodes)-3 {
			continue
		}
		for _, k := range []int{1, 2, 3, 4, 8, 32} {
			for _, j := range []byte{0, 1, 0xff} {
				yield(Fault{Kind: FTrail, Node: id, N: k, Junk: j})
				for p := 0; p < n.Parts && p < 40; p++ {
					yield(Fault{Kind: FGap, Node: id, Part: p, N: k, Junk: j})
				}
			}
			yield(Fault{Kind: FCut, Node: id, N: k})
			for p := 0; p < n.Parts && p < 40; p++ {
				yield(Fault{Kind: FOffset, Node: id, Part: p, N: k})
				yield(Fault{Kind: FOffset, Node: id, Part: p, N: -k})
			}
		}
		for p := 0; p < n.Parts && p < 40; p++ {
			for _, x := range []int{16, -16, 256, 65536, 1 << 24, 1 << 30, -1 << 31, 1<<31 - 1} {
				yield(Fault{Kind: FOffset, Node: id, Part: p, N: x})
			}
			if p+1 < n.Parts {
				yield(Fault{Kind: FSwap, Node: id, Part: p})
				yield(Fault{Kind: FDup, Node: id, Part: p})
			}
		}
	}
}

// OverLimit yields copies of v with exactly one limited node grown past (or, as a control, exactly to) its limit.
// Nodes with limits above maxItems are skipped.
func OverLimit(s *Schema, v *Val, maxItems uint64, yield func(*Val)) {
	root := v.Copy()
	overLimit(s, root, root, maxItems, yield)
}

func overLimit(s *Schema, root, v *Val, maxItems uint64, yield func(*Val)) {
	switch s.Kind {
	case KBytes, KBitlist:
		if s.N > maxItems {
			return
		}
		old := v.B
		for _, n := range []uint64{s.N, s.N + 1, s.N + 2, s.N + 7, s.N + 8, s.N + 9, 2*s.N + 1} {
			v.B = make([]byte, n)
			yield(root)
			for i := range v.B {
				v.B[i] = 1
			}
			yield(root)
		}
		v.B = old
	case KPtr:
		overLimit(s.Elem, root, v, maxItems, yield)
	case KList:
		if s.N <= maxItems {
			old := v.E
			for _, n := range []uint64{s.N, s.N + 1, s.N + 2, 2*s.N + 1} {
				v.E = make([]*Val, n)
				for i := range v.E {
					v.E[i] = MinVal(s.Elem)
				}
				yield(root)
			}
			v.E = old
		}
		for i, e := range v.E {
			if i < 3 {
				overLimit(s.Elem, root, e, maxItems, yield)
			}
		}
	case KVec:
		for i, e := range v.E {
			if i < 3 {
				overLimit(s.Elem, root, e, maxItems, yield)
			}
		}
	case KCont:
		for i, e := range v.E {
			overLimit(s.Fields[i].S, root, e, maxItems, yield)
		}
	}
}
