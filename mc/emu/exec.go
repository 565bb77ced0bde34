package emu

import (
	"fmt"
	"math/bits"
	"unsafe"
)

func sx(v uint32) uint64 { return uint64(int64(int32(v))) }

// run executes up to n instructions of a thread, or until it blocks.
func (m *machine) run(t *thread, n int) {
	code := m.p.code
	text := m.p.text
	r := &t.r
	pc, npc := t.pc, t.npc
	space, mask := m.space, m.p.mask
	base := unsafe.Pointer(nil)
	{
		b := m.base
		base = *(*unsafe.Pointer)(unsafe.Pointer(&b))
	}
	done := 0
	for ; done < n; done++ {
		idx := (pc - text) >> 2
		if idx >= uint64(len(code)) || pc&3 != 0 {
			panic(fmt.Sprintf("jump to %#x", pc))
		}
		c := &code[idx]
		this := pc
		pc = npc
		npc += 4
		r[0] = 0
		rs, rt := c.rs&31, c.rt&31
		switch c.op {
		case iNop, iSYNC:
		case iSLL:
			r[c.rd&31] = sx(uint32(r[rt]) << uint(c.imm))
		case iSRL:
			r[c.rd&31] = sx(uint32(r[rt]) >> uint(c.imm))
		case iSRA:
			r[c.rd&31] = uint64(int64(int32(r[rt]) >> uint(c.imm)))
		case iSLLV:
			r[c.rd&31] = sx(uint32(r[rt]) << (r[rs] & 31))
		case iSRLV:
			r[c.rd&31] = sx(uint32(r[rt]) >> (r[rs] & 31))
		case iSRAV:
			r[c.rd&31] = uint64(int64(int32(r[rt]) >> (r[rs] & 31)))
		case iROTR:
			r[c.rd&31] = sx(bits.RotateLeft32(uint32(r[rt]), -int(c.imm)))
		case iROTRV:
			r[c.rd&31] = sx(bits.RotateLeft32(uint32(r[rt]), -int(r[rs]&31)))
		case iDROTR:
			r[c.rd&31] = bits.RotateLeft64(r[rt], -int(c.imm))
		case iDROTRV:
			r[c.rd&31] = bits.RotateLeft64(r[rt], -int(r[rs]&63))
		case iJR:
			npc = r[rs]
		case iJALR:
			to := r[rs]
			r[c.rd&31] = this + 8
			npc = to
		case iMOVZ:
			if r[rt] == 0 {
				r[c.rd&31] = r[rs]
			}
		case iMOVN:
			if r[rt] != 0 {
				r[c.rd&31] = r[rs]
			}
		case iSYSCALL:
			t.pc, t.npc = pc, npc
			m.count += uint64(done)
			m.now += uint64(done)
			n -= done
			done = 0
			block := m.syscall(t)
			pc, npc = t.pc, t.npc
			if block || m.exited || t.dead {
				return
			}
		case iBREAK:
			panic(fmt.Sprintf("break at %#x", this))
		case iTEQ:
			if r[rs] == r[rt] {
				panic(fmt.Sprintf("trap at %#x", this))
			}
		case iTNE:
			if r[rs] != r[rt] {
				panic(fmt.Sprintf("trap at %#x", this))
			}
		case iMFHI:
			r[c.rd&31] = t.hi
		case iMTHI:
			t.hi = r[rs]
		case iMFLO:
			r[c.rd&31] = t.lo
		case iMTLO:
			t.lo = r[rs]
		case iDSLLV:
			r[c.rd&31] = r[rt] << (r[rs] & 63)
		case iDSRLV:
			r[c.rd&31] = r[rt] >> (r[rs] & 63)
		case iDSRAV:
			r[c.rd&31] = uint64(int64(r[rt]) >> (r[rs] & 63))
		case iMULT:
			p := int64(int32(r[rs])) * int64(int32(r[rt]))
			t.lo, t.hi = sx(uint32(p)), sx(uint32(p>>32))
		case iMULTU:
			p := uint64(uint32(r[rs])) * uint64(uint32(r[rt]))
			t.lo, t.hi = sx(uint32(p)), sx(uint32(p>>32))
		case iDIV:
			a, b := int32(r[rs]), int32(r[rt])
			if b == 0 {
				t.lo, t.hi = 0, 0
			} else if b == -1 {
				t.lo, t.hi = sx(uint32(-a)), 0
			} else {
				t.lo, t.hi = sx(uint32(a/b)), sx(uint32(a%b))
			}
		case iDIVU:
			a, b := uint32(r[rs]), uint32(r[rt])
			if b == 0 {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = sx(a/b), sx(a%b)
			}
		case iDMULT:
			a, b := r[rs], r[rt]
			hi, lo := bits.Mul64(a, b)
			if int64(a) < 0 {
				hi -= b
			}
			if int64(b) < 0 {
				hi -= a
			}
			t.hi, t.lo = hi, lo
		case iDMULTU:
			t.hi, t.lo = bits.Mul64(r[rs], r[rt])
		case iDDIV:
			a, b := int64(r[rs]), int64(r[rt])
			if b == 0 {
				t.lo, t.hi = 0, 0
			} else if b == -1 {
				t.lo, t.hi = uint64(-a), 0
			} else {
				t.lo, t.hi = uint64(a/b), uint64(a%b)
			}
		case iDDIVU:
			if r[rt] == 0 {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = r[rs]/r[rt], r[rs]%r[rt]
			}
		case iADDU:
			r[c.rd&31] = sx(uint32(r[rs]) + uint32(r[rt]))
		case iSUBU:
			r[c.rd&31] = sx(uint32(r[rs]) - uint32(r[rt]))
		case iAND:
			r[c.rd&31] = r[rs] & r[rt]
		case iOR:
			r[c.rd&31] = r[rs] | r[rt]
		case iXOR:
			r[c.rd&31] = r[rs] ^ r[rt]
		case iNOR:
			r[c.rd&31] = ^(r[rs] | r[rt])
		case iSLT:
			v := uint64(0)
			if int64(r[rs]) < int64(r[rt]) {
				v = 1
			}
			r[c.rd&31] = v
		case iSLTU:
			v := uint64(0)
			if r[rs] < r[rt] {
				v = 1
			}
			r[c.rd&31] = v
		case iDADDU:
			r[c.rd&31] = r[rs] + r[rt]
		case iDSUBU:
			r[c.rd&31] = r[rs] - r[rt]
		case iDSLL:
			r[c.rd&31] = r[rt] << uint(c.imm)
		case iDSRL:
			r[c.rd&31] = r[rt] >> uint(c.imm)
		case iDSRA:
			r[c.rd&31] = uint64(int64(r[rt]) >> uint(c.imm))
		case iBLTZ:
			if int64(r[rs]) < 0 {
				npc = uint64(c.imm)
			}
		case iBGEZ:
			if int64(r[rs]) >= 0 {
				npc = uint64(c.imm)
			}
		case iBLTZAL:
			neg := int64(r[rs]) < 0
			r[31] = this + 8
			if neg {
				npc = uint64(c.imm)
			}
		case iBGEZAL:
			pos := int64(r[rs]) >= 0
			r[31] = this + 8
			if pos {
				npc = uint64(c.imm)
			}
		case iJ:
			npc = uint64(c.imm)
		case iJAL:
			r[31] = this + 8
			npc = uint64(c.imm)
		case iBEQ:
			if r[rs] == r[rt] {
				npc = uint64(c.imm)
			}
		case iBNE:
			if r[rs] != r[rt] {
				npc = uint64(c.imm)
			}
		case iBLEZ:
			if int64(r[rs]) <= 0 {
				npc = uint64(c.imm)
			}
		case iBGTZ:
			if int64(r[rs]) > 0 {
				npc = uint64(c.imm)
			}
		case iADDIU:
			r[rt] = sx(uint32(r[rs]) + uint32(c.imm))
		case iSLTI:
			v := uint64(0)
			if int64(r[rs]) < c.imm {
				v = 1
			}
			r[rt] = v
		case iSLTIU:
			v := uint64(0)
			if r[rs] < uint64(c.imm) {
				v = 1
			}
			r[rt] = v
		case iANDI:
			r[rt] = r[rs] & uint64(c.imm)
		case iORI:
			r[rt] = r[rs] | uint64(c.imm)
		case iXORI:
			r[rt] = r[rs] ^ uint64(c.imm)
		case iLUI:
			r[rt] = uint64(int64(int32(c.imm)))
		case iDADDIU:
			r[rt] = r[rs] + uint64(c.imm)
		case iMUL:
			r[c.rd&31] = sx(uint32(r[rs]) * uint32(r[rt]))
		case iCLZ:
			r[c.rd&31] = uint64(bits.LeadingZeros32(uint32(r[rs])))
		case iCLO:
			r[c.rd&31] = uint64(bits.LeadingZeros32(^uint32(r[rs])))
		case iDCLZ:
			r[c.rd&31] = uint64(bits.LeadingZeros64(r[rs]))
		case iDCLO:
			r[c.rd&31] = uint64(bits.LeadingZeros64(^r[rs]))
		case iWSBH:
			v := uint32(r[rt])
			r[c.rd&31] = sx(v<<8&0xff00ff00 | v>>8&0x00ff00ff)
		case iSEB:
			r[c.rd&31] = uint64(int64(int8(r[rt])))
		case iSEH:
			r[c.rd&31] = uint64(int64(int16(r[rt])))
		case iDSBH:
			v := r[rt]
			r[c.rd&31] = v<<8&0xff00ff00ff00ff00 | v>>8&0x00ff00ff00ff00ff
		case iDSHD:
			v := r[rt]
			r[c.rd&31] = v<<48 | v<<16&0x0000ffff00000000 | v>>16&0x00000000ffff0000 | v>>48
		case iLB:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			r[rt] = uint64(int64(*(*int8)(p)))
		case iLBU:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			r[rt] = uint64(*(*uint8)(p))
		case iLH:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 1)
			r[rt] = uint64(int64(int16(bits.ReverseBytes16(*(*uint16)(p)))))
		case iLHU:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 1)
			r[rt] = uint64(bits.ReverseBytes16(*(*uint16)(p)))
		case iLW:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 3)
			r[rt] = sx(bits.ReverseBytes32(*(*uint32)(p)))
		case iLWU:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 3)
			r[rt] = uint64(bits.ReverseBytes32(*(*uint32)(p)))
		case iLD:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 7)
			r[rt] = bits.ReverseBytes64(*(*uint64)(p))
		case iSB:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			*(*uint8)(p) = uint8(r[rt])
		case iSH:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 1)
			*(*uint16)(p) = bits.ReverseBytes16(uint16(r[rt]))
		case iSW:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 3)
			*(*uint32)(p) = bits.ReverseBytes32(uint32(r[rt]))
		case iSD:
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				badAddr(a)
			}
			p := unsafe.Add(base, a)
			m.align(a, 7)
			*(*uint64)(p) = bits.ReverseBytes64(r[rt])
		case iBad:
			panic(notImplemented(fmt.Sprintf("instruction %#08x at %#x", uint32(c.imm), this)))
		default: // memory
			a := (r[rs] + uint64(c.imm)) & mask
			if a >= space {
				panic(fmt.Sprintf("access to address %#x", a))
			}
			p := unsafe.Add(base, a)
			switch c.op {
			case iLL:
				m.align(a, 3)
				t.linked = true
				r[rt] = sx(bits.ReverseBytes32(*(*uint32)(p)))
			case iLLD:
				m.align(a, 7)
				t.linked = true
				r[rt] = bits.ReverseBytes64(*(*uint64)(p))
			case iSC:
				m.align(a, 3)
				if t.linked {
					*(*uint32)(p) = bits.ReverseBytes32(uint32(r[rt]))
					r[rt] = 1
				} else {
					r[rt] = 0
				}
				t.linked = false
			case iSCD:
				m.align(a, 7)
				if t.linked {
					*(*uint64)(p) = bits.ReverseBytes64(r[rt])
					r[rt] = 1
				} else {
					r[rt] = 0
				}
				t.linked = false
			// unaligned accesses, big-endian: the left part starts at the address and goes up to the end of its word
			case iLWL:
				k := a & 3
				w := bits.ReverseBytes32(*(*uint32)(unsafe.Add(base, a&^3)))
				keep := uint32(1)<<(8*k) - 1
				r[rt] = sx(w<<(8*k) | uint32(r[rt])&keep)
			case iLWR:
				k := 3 - a&3
				w := bits.ReverseBytes32(*(*uint32)(unsafe.Add(base, a&^3)))
				keep := ^(^uint32(0) >> (8 * k))
				r[rt] = sx(w>>(8*k) | uint32(r[rt])&keep)
			case iSWL:
				for k := uint64(0); a&3+k < 4; k++ {
					*(*uint8)(unsafe.Add(base, a+k)) = uint8(uint32(r[rt]) >> (24 - 8*k))
				}
			case iSWR:
				for k := uint64(0); k <= a&3; k++ {
					*(*uint8)(unsafe.Add(base, a-k)) = uint8(uint32(r[rt]) >> (8 * k))
				}
			case iLDL:
				k := a & 7
				w := bits.ReverseBytes64(*(*uint64)(unsafe.Add(base, a&^7)))
				keep := uint64(1)<<(8*k) - 1
				r[rt] = w<<(8*k) | r[rt]&keep
			case iLDR:
				k := 7 - a&7
				w := bits.ReverseBytes64(*(*uint64)(unsafe.Add(base, a&^7)))
				keep := ^(^uint64(0) >> (8 * k))
				r[rt] = w>>(8*k) | r[rt]&keep
			case iSDL:
				for k := uint64(0); a&7+k < 8; k++ {
					*(*uint8)(unsafe.Add(base, a+k)) = uint8(r[rt] >> (56 - 8*k))
				}
			case iSDR:
				for k := uint64(0); k <= a&7; k++ {
					*(*uint8)(unsafe.Add(base, a-k)) = uint8(r[rt] >> (8 * k))
				}
			default:
				panic(notImplemented("a decoded instruction"))
			}
		}
	}
	t.pc, t.npc = pc, npc
	m.count += uint64(done)
	m.now += uint64(done)
}

func (m *machine) align(a, mask uint64) {
	if a&mask != 0 {
		badAlign(a)
	}
}

//go:noinline
func badAlign(a uint64) { panic(fmt.Sprintf("unaligned access to %#x", a)) }

//go:noinline
func badAddr(a uint64) { panic(fmt.Sprintf("access to address %#x", a)) }

// o32 gives the number of the same call in the 64-bit table.
var o32 = map[uint64]uint64{
	4001: 5058, 4003: 5000, 4004: 5001, 4005: 5002, 4006: 5003, 4020: 5038, 4045: 5012, 4055: 5070, 4076: 5095, 4090: 5009, 4210: 5009,
	4091: 5011, 4120: 5055, 4125: 5010, 4162: 5023, 4166: 5034, 4194: 5013, 4195: 5014, 4206: 5129, 4218: 5027, 4220: 5070,
	4222: 5178, 4238: 5194, 4240: 5196, 4246: 5205, 4263: 5222, 4288: 5247, 4338: 5302, 4403: 5222, 4422: 5194, 4326: 5285, 4325: 5284, 4249: 5208, 4250: 5209, 4313: 5272, 4054: 5015,
}

// timespec at an address: two words, or two 64-bit numbers for the calls with time64 in their name.
func (m *machine) timespec(a uint64, wide bool) uint64 {
	if m.p.w32 && !wide {
		return uint64(m.ld32(a))*1e9 + uint64(m.ld32(a+4))
	}
	return m.ld64(a)*1e9 + m.ld64(a+8)
}

func (m *machine) zero(a, n uint64) {
	b := m.bytes(a, n)
	for i := range b {
		b[i] = 0
	}
}

// syscall executes a system call; true: the thread blocks (or gives up its turn).
func (m *machine) syscall(t *thread) bool {
	r := &t.r
	mask := m.p.mask
	a0, a1, a2, a3 := r[4]&mask, r[5]&mask, r[6]&mask, r[7]&mask
	ok := func(v uint64) {
		if m.p.w32 {
			v = sx(uint32(v))
		}
		r[2], r[7] = v, 0
	}
	fail := func(e uint64) { r[2], r[7] = e, 1 }
	const enosys, einval, ebadf, enoent, eagain, enomem = 89, 22, 9, 2, 11, 12
	n := r[2]
	wide := true
	if m.p.w32 {
		wide = n == 4403 || n == 4422
		n = o32[n]
	}
	switch n {
	case 5000: // read
		if a0 != 0 {
			fail(ebadf)
			return false
		}
		if m.in == nil {
			ok(0)
			return false
		}
		k, _ := m.in.Read(m.bytes(a1, a2))
		ok(uint64(k))
	case 5001: // write
		if a0 == 6 { // the eventfd
			ok(a2)
			return false
		}
		if a0 != 1 && a0 != 2 {
			fail(ebadf)
			return false
		}
		m.out.Write(m.bytes(a1, a2))
		ok(a2)
	case 5009: // mmap
		length := (a1 + 0xffff) &^ 0xffff
		at := a0
		if a3&0x10 == 0 { // not MAP_FIXED: a hint is honoured when it lies where nothing else does
			if m.p.w32 || at == 0 || at&0xfff != 0 || at+length > m.space || at < 1<<34 || at >= mmap64 && at < 0x80_0000_0000 {
				top := m.space
				if m.p.w32 {
					top = stack32 - stackSize - 0x10000
				}
				if length > top || m.mmapAt+length > top {
					fail(enomem)
					return false
				}
				at = m.mmapAt
				m.mmapAt += length + 0x10000
			}
		}
		m.hostMap(at, (a1+0xfff)&^0xfff, prot(a2))
		ok(at)
	case 5011: // munmap
		m.hostMap(a0, (a1+0xfff)&^0xfff, 0)
		if end := a0 + (a1+0xffff)&^0xffff + 0x10000; end == m.mmapAt { // give the space back
			m.mmapAt = a0
		}
		ok(0)
	case 5010, 5027: // mprotect, madvise
		if n == 5027 && a2 == 4 { // MADV_DONTNEED: reads as zero afterwards
			m.hostMap(a0, (a1+0xfff)&^0xfff, 3)
		}
		ok(0)
	case 5012: // brk
		ok(0)
	case 5013, 5015: // sigaction, ioctl
		if n == 5013 && a2 != 0 {
			m.zero(a2, 24)
		}
		ok(0)
	case 5014: // sigprocmask
		if a2 != 0 {
			m.zero(a2, 16)
		}
		ok(0)
	case 5129: // sigaltstack
		if a1 != 0 {
			if m.p.w32 {
				m.zero(a1, 12)
				m.st32(a1+8, 2) // SS_DISABLE
			} else {
				m.zero(a1, 24)
				m.st32(a1+16, 2)
			}
		}
		ok(0)
	case 5023: // sched_yield
		ok(0)
		return true
	case 5034: // nanosleep
		d := m.timespec(a0, wide)
		ok(0)
		t.sleeping, t.deadline = true, m.now+d+1
		return true
	case 5038:
		ok(1000)
	case 5178:
		ok(t.tid)
	case 5055: // clone
		c := &thread{r: t.r, hi: t.hi, lo: t.lo, pc: t.pc, npc: t.npc, tid: m.nextTid}
		m.nextTid++
		c.r[29] = a1
		c.r[2], c.r[7] = 0, 0
		m.threads = append(m.threads, c)
		ok(c.tid)
	case 5058: // exit
		t.dead = true
		return true
	case 5205:
		m.exited, m.code = true, int(int32(a0))
		return true
	case 5194: // futex
		switch a1 & 0x7f {
		case 0:
			if m.ld32(a0) != uint32(a2) {
				fail(eagain)
				return false
			}
			t.waiting, t.waitAddr = true, a0
			t.deadline = 0
			if a3 != 0 {
				t.deadline = m.now + m.timespec(a3, wide) + 1
			}
			ok(0)
			return true
		case 1:
			woken := uint64(0)
			for _, x := range m.threads {
				if woken < uint64(uint32(a2)) && !x.dead && x.waiting && x.waitAddr == a0 {
					x.waiting, x.deadline = false, 0
					woken++
				}
			}
			ok(woken)
		default:
			fail(enosys)
		}
	case 5196: // sched_getaffinity: one processor
		m.zero(a2, 8)
		if m.p.w32 {
			m.st32(a2, 1)
			ok(4)
		} else {
			m.st64(a2, 1)
			ok(8)
		}
	case 5222: // clock_gettime
		m.now += 50
		s, ns := m.now/1e9+1600000000, m.now%1e9
		if m.p.w32 && !wide {
			m.st32(a1, uint32(s))
			m.st32(a1+4, uint32(ns))
		} else {
			m.st64(a1, s)
			m.st64(a1+8, ns)
		}
		ok(0)
	case 5247, 5002: // open
		fail(enoent)
	case 5070, 5003: // fcntl, close
		if a0 <= 2 {
			ok(0)
		} else {
			fail(ebadf)
		}
	case 5285: // epoll_create1
		ok(5)
	case 5284: // eventfd2
		ok(6)
	case 5208: // epoll_ctl
		ok(0)
	case 5272, 5209: // epoll_pwait: no events, and never a long wait
		ok(0)
		if int32(a3) == 0 {
			return false
		}
		t.sleeping, t.deadline = true, m.now+1e6
		return true
	case 5095, 5302: // getrlimit, prlimit64
		fail(einval)
	default:
		fail(enosys)
	}
	return false
}

func prot(p uint64) int { return int(p & 3) } // nothing is executed natively
