// Package emu runs a static big-endian MIPS Linux program (a Go program built with GOARCH=mips64
// GOMIPS64=softfloat, or GOARCH=mips GOMIPS=softfloat) in user mode: integer instructions, the system calls the Go runtime makes, and threads
// (switched deterministically). No floating point unit, no signals: a fault ends the run.
package emu

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"runtime/debug"
	"syscall"
	"unsafe"
)

type ins struct {
	op         uint8
	rs, rt, rd uint8
	imm        int64
}

// Program is a loaded executable, shared by all its runs.
type Program struct {
	entry  uint64
	text   uint64 // address of the first decoded instruction
	code   []ins
	phdr   []elf.ProgHeader
	phdata [][]byte
	w32    bool // 32-bit program
	mask   uint64
}

const (
	space64   = uint64(1) << 40
	stack64   = uint64(0x7f_0000_0000)
	mmap64    = uint64(0x20_0000_0000)
	space32   = uint64(1) << 31
	stack32   = uint64(0x7fff_0000)
	mmap32    = uint64(0x0800_0000)
	stackSize = uint64(1 << 20)
	quantum   = 40000
)

func Load(path string) (*Program, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.Machine != elf.EM_MIPS || f.Data != elf.ELFDATA2MSB {
		return nil, fmt.Errorf("%s is not a big-endian MIPS program", path)
	}
	p := &Program{entry: f.Entry, w32: f.Class == elf.ELFCLASS32, mask: ^uint64(0)}
	if p.w32 {
		p.mask = 1<<32 - 1
	}
	for _, h := range f.Progs {
		if h.Type != elf.PT_LOAD {
			continue
		}
		d := make([]byte, h.Filesz)
		if _, err := h.ReadAt(d, 0); err != nil && err != io.EOF {
			return nil, err
		}
		p.phdr = append(p.phdr, h.ProgHeader)
		p.phdata = append(p.phdata, d)
		if h.Flags&elf.PF_X != 0 {
			if p.code != nil {
				return nil, fmt.Errorf("two text segments")
			}
			p.text = h.Vaddr
			p.code = make([]ins, len(d)/4)
			for i := range p.code {
				p.code[i] = decode(binary.BigEndian.Uint32(d[4*i:]), h.Vaddr+uint64(4*i))
			}
		}
	}
	return p, nil
}

const (
	iBad = iota
	iNop
	iSLL
	iSRL
	iSRA
	iSLLV
	iSRLV
	iSRAV
	iJR
	iJALR
	iMOVZ
	iMOVN
	iSYSCALL
	iBREAK
	iSYNC
	iMFHI
	iMTHI
	iMFLO
	iMTLO
	iDSLLV
	iDSRLV
	iDSRAV
	iMULT
	iMULTU
	iDIV
	iDIVU
	iDMULT
	iDMULTU
	iDDIV
	iDDIVU
	iADDU
	iSUBU
	iAND
	iOR
	iXOR
	iNOR
	iSLT
	iSLTU
	iDADDU
	iDSUBU
	iTEQ
	iTNE
	iDSLL
	iDSRL
	iDSRA
	iBLTZ
	iBGEZ
	iBLTZAL
	iBGEZAL
	iJ
	iJAL
	iBEQ
	iBNE
	iBLEZ
	iBGTZ
	iADDIU
	iSLTI
	iSLTIU
	iANDI
	iORI
	iXORI
	iLUI
	iDADDIU
	iLB
	iLH
	iLW
	iLBU
	iLHU
	iLWU
	iLD
	iSB
	iSH
	iSW
	iSD
	iLWL
	iLWR
	iSWL
	iSWR
	iLDL
	iLDR
	iSDL
	iSDR
	iLL
	iLLD
	iSC
	iSCD
	iMUL
	iCLZ
	iCLO
	iDCLZ
	iDCLO
	iROTR
	iROTRV
	iDROTR
	iDROTRV
	iWSBH
	iSEB
	iSEH
	iDSBH
	iDSHD
)

func decode(w uint32, pc uint64) ins {
	rs, rt, rd, sa := uint8(w>>21&31), uint8(w>>16&31), uint8(w>>11&31), int64(w>>6&31)
	simm := int64(int16(w))
	zimm := int64(w & 0xffff)
	r := func(op uint8) ins { return ins{op, rs, rt, rd, sa} }
	im := func(op uint8, v int64) ins { return ins{op, rs, rt, rd, v} }
	br := int64(pc) + 4 + simm<<2
	switch w >> 26 {
	case 0: // SPECIAL
		switch w & 63 {
		case 0:
			if w == 0 {
				return ins{op: iNop}
			}
			return r(iSLL)
		case 2:
			if rs == 1 {
				return r(iROTR)
			}
			return r(iSRL)
		case 3:
			return r(iSRA)
		case 4:
			return r(iSLLV)
		case 6:
			if sa == 1 {
				return r(iROTRV)
			}
			return r(iSRLV)
		case 7:
			return r(iSRAV)
		case 8:
			return r(iJR)
		case 9:
			return r(iJALR)
		case 10:
			return r(iMOVZ)
		case 11:
			return r(iMOVN)
		case 12:
			return r(iSYSCALL)
		case 13:
			return r(iBREAK)
		case 15:
			return r(iSYNC)
		case 16:
			return r(iMFHI)
		case 17:
			return r(iMTHI)
		case 18:
			return r(iMFLO)
		case 19:
			return r(iMTLO)
		case 20:
			return r(iDSLLV)
		case 22:
			if sa == 1 {
				return r(iDROTRV)
			}
			return r(iDSRLV)
		case 23:
			return r(iDSRAV)
		case 24:
			return r(iMULT)
		case 25:
			return r(iMULTU)
		case 26:
			return r(iDIV)
		case 27:
			return r(iDIVU)
		case 28:
			return r(iDMULT)
		case 29:
			return r(iDMULTU)
		case 30:
			return r(iDDIV)
		case 31:
			return r(iDDIVU)
		case 32, 33: // ADD (overflow traps are not used by Go), ADDU
			return r(iADDU)
		case 34, 35:
			return r(iSUBU)
		case 36:
			return r(iAND)
		case 37:
			return r(iOR)
		case 38:
			return r(iXOR)
		case 39:
			return r(iNOR)
		case 42:
			return r(iSLT)
		case 43:
			return r(iSLTU)
		case 44, 45:
			return r(iDADDU)
		case 46, 47:
			return r(iDSUBU)
		case 52:
			return r(iTEQ)
		case 54:
			return r(iTNE)
		case 56:
			return r(iDSLL)
		case 58:
			if rs == 1 {
				return r(iDROTR)
			}
			return r(iDSRL)
		case 59:
			return r(iDSRA)
		case 60:
			return im(iDSLL, sa+32)
		case 62:
			if rs == 1 {
				return im(iDROTR, sa+32)
			}
			return im(iDSRL, sa+32)
		case 63:
			return im(iDSRA, sa+32)
		}
	case 1: // REGIMM
		switch rt {
		case 0:
			return im(iBLTZ, br)
		case 1:
			return im(iBGEZ, br)
		case 16:
			return im(iBLTZAL, br)
		case 17:
			return im(iBGEZAL, br)
		}
	case 2:
		return im(iJ, int64(pc+4)&^0xfffffff|int64(w&0x3ffffff)<<2)
	case 3:
		return im(iJAL, int64(pc+4)&^0xfffffff|int64(w&0x3ffffff)<<2)
	case 4:
		return im(iBEQ, br)
	case 5:
		return im(iBNE, br)
	case 6:
		return im(iBLEZ, br)
	case 7:
		return im(iBGTZ, br)
	case 8, 9:
		return im(iADDIU, simm)
	case 10:
		return im(iSLTI, simm)
	case 11:
		return im(iSLTIU, simm)
	case 12:
		return im(iANDI, zimm)
	case 13:
		return im(iORI, zimm)
	case 14:
		return im(iXORI, zimm)
	case 15:
		return im(iLUI, simm<<16)
	case 24, 25:
		return im(iDADDIU, simm)
	case 28: // SPECIAL2
		switch w & 63 {
		case 2:
			return r(iMUL)
		case 32:
			return r(iCLZ)
		case 33:
			return r(iCLO)
		case 36:
			return r(iDCLZ)
		case 37:
			return r(iDCLO)
		}
	case 31: // SPECIAL3
		switch {
		case w&63 == 32 && sa == 2:
			return r(iWSBH)
		case w&63 == 32 && sa == 16:
			return r(iSEB)
		case w&63 == 32 && sa == 24:
			return r(iSEH)
		case w&63 == 36 && sa == 2:
			return r(iDSBH)
		case w&63 == 36 && sa == 5:
			return r(iDSHD)
		}
	case 32:
		return im(iLB, simm)
	case 33:
		return im(iLH, simm)
	case 34:
		return im(iLWL, simm)
	case 35:
		return im(iLW, simm)
	case 36:
		return im(iLBU, simm)
	case 37:
		return im(iLHU, simm)
	case 38:
		return im(iLWR, simm)
	case 39:
		return im(iLWU, simm)
	case 26:
		return im(iLDL, simm)
	case 27:
		return im(iLDR, simm)
	case 40:
		return im(iSB, simm)
	case 41:
		return im(iSH, simm)
	case 42:
		return im(iSWL, simm)
	case 43:
		return im(iSW, simm)
	case 44:
		return im(iSDL, simm)
	case 45:
		return im(iSDR, simm)
	case 46:
		return im(iSWR, simm)
	case 48:
		return im(iLL, simm)
	case 52:
		return im(iLLD, simm)
	case 55:
		return im(iLD, simm)
	case 56:
		return im(iSC, simm)
	case 60:
		return im(iSCD, simm)
	case 63:
		return im(iSD, simm)
	}
	return ins{op: iBad, imm: int64(w)}
}

type thread struct {
	r        [32]uint64
	hi, lo   uint64
	pc, npc  uint64
	tid      uint64
	dead     bool
	linked   bool
	waitAddr uint64 // futex
	waiting  bool
	deadline uint64 // virtual time, 0: none
	sleeping bool
}

type machine struct {
	p       *Program
	base    uintptr
	threads []*thread
	cur     *thread
	now     uint64 // virtual nanoseconds
	count   uint64
	mmapAt  uint64
	out     io.Writer
	in      io.Reader
	exited  bool
	code    int
	nextTid uint64
	space   uint64
	tick    func(instructions uint64) bool
}

// Fault is a run that ended by a bad memory access, a bad instruction or the like.
type Fault struct{ Msg string }

func (f *Fault) Error() string { return f.Msg }

// Unsupported is a run that ended by something the emulator does not implement.
type Unsupported struct{ Msg string }

func (f *Unsupported) Error() string { return f.Msg }

type notImplemented string

// Run executes the program to its end (exit code), or at most maxIns instructions.
// tick (may be nil) is called now and then, false ends the run.
func (p *Program) Run(args, env []string, in io.Reader, out io.Writer, maxIns uint64, tick func(instructions uint64) bool) (code int, instructions uint64, err error) {
	space, stackTop, mmapStart := space64, stack64, mmap64
	if p.w32 {
		space, stackTop, mmapStart = space32, stack32, mmap32
	}
	m := &machine{p: p, out: out, in: in, mmapAt: mmapStart, nextTid: 1001, now: 1e9, space: space, tick: tick}
	mem, _, e := syscall.RawSyscall6(syscall.SYS_MMAP, 0, uintptr(space), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return 0, 0, fmt.Errorf("cannot reserve the address space: %v", e)
	}
	m.base = mem
	defer syscall.RawSyscall(syscall.SYS_MUNMAP, mem, uintptr(space), 0)
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		instructions = m.count
		if x := recover(); x != nil {
			pc, ra, sp := uint64(0), uint64(0), uint64(0)
			if m.cur != nil {
				pc, ra, sp = m.cur.pc, m.cur.r[31], m.cur.r[29]
			}
			if ni, ok := x.(notImplemented); ok {
				err = &Unsupported{string(ni)}
				return
			}
			err = &Fault{fmt.Sprintf("%v (pc near %#x, ra %#x, sp %#x)", x, pc, ra, sp)}
		}
	}()
	for i, h := range p.phdr {
		a, n := h.Vaddr&^0xffff, (h.Vaddr+h.Memsz+0xffff)&^0xffff
		m.hostMap(a, n-a, syscall.PROT_READ|syscall.PROT_WRITE)
		copy(m.bytes(h.Vaddr, h.Filesz), p.phdata[i])
	}
	m.hostMap(stackTop-stackSize, stackSize, syscall.PROT_READ|syscall.PROT_WRITE)
	t := &thread{tid: 1000, pc: p.entry, npc: p.entry + 4}
	sp := stackTop - 64
	push := func(b []byte) uint64 {
		sp -= uint64(len(b))
		copy(m.bytes(sp, uint64(len(b))), b)
		return sp
	}
	var ptrs []uint64
	ptrs = append(ptrs, uint64(len(args)))
	for _, a := range args {
		ptrs = append(ptrs, push(append([]byte(a), 0)))
	}
	ptrs = append(ptrs, 0)
	for _, a := range env {
		ptrs = append(ptrs, push(append([]byte(a), 0)))
	}
	rnd := push([]byte("0123456789abcdef"))
	ptrs = append(ptrs, 0, 25, rnd, 6, 4096, 0, 0)
	sp &^= 15
	sp -= uint64(len(ptrs)+1) &^ 1 * 8
	for i, v := range ptrs {
		if p.w32 {
			m.st32(sp+uint64(4*i), uint32(v))
		} else {
			m.st64(sp+uint64(8*i), v)
		}
	}
	t.r[29] = sp
	m.threads = []*thread{t}
	m.schedule(maxIns)
	if !m.exited {
		return 0, m.count, &Fault{fmt.Sprintf("still running after %d instructions", m.count)}
	}
	return m.code, m.count, nil
}

func (m *machine) hostMap(a, n uint64, prot int) {
	if a+n > m.space || a+n < a {
		panic(fmt.Sprintf("mapping %#x+%#x outside the address space", a, n))
	}
	_, _, e := syscall.RawSyscall6(syscall.SYS_MMAP, m.base+uintptr(a), uintptr(n), uintptr(prot), syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		panic(fmt.Sprintf("mapping %#x+%#x: %v", a, n, e))
	}
}

func (m *machine) ptr(a uint64) unsafe.Pointer {
	if a >= m.space {
		panic(fmt.Sprintf("access to address %#x", a))
	}
	b := m.base
	return *(*unsafe.Pointer)(unsafe.Pointer(&b)) // host address base; the offset is added below
}

func (m *machine) bytes(a, n uint64) []byte {
	if n == 0 {
		return nil
	}
	if a+n > m.space || a+n < a {
		panic(fmt.Sprintf("access to address %#x+%#x", a, n))
	}
	return unsafe.Slice((*byte)(unsafe.Add(m.ptr(a), a)), n)
}

func (m *machine) ld64(a uint64) uint64 {
	if a >= m.space {
		panic(fmt.Sprintf("access to address %#x", a))
	}
	return bits.ReverseBytes64(*(*uint64)(unsafe.Add(m.ptr(a), a)))
}
func (m *machine) st64(a uint64, v uint64) {
	*(*uint64)(unsafe.Add(m.ptr(a), a)) = bits.ReverseBytes64(v)
}
func (m *machine) ld32(a uint64) uint32 {
	return bits.ReverseBytes32(*(*uint32)(unsafe.Add(m.ptr(a), a)))
}
func (m *machine) st32(a uint64, v uint32) {
	*(*uint32)(unsafe.Add(m.ptr(a), a)) = bits.ReverseBytes32(v)
}

func (m *machine) schedule(maxIns uint64) {
	i, slices := 0, 0
	for !m.exited && m.count < maxIns {
		// next runnable thread
		n := len(m.threads)
		var t *thread
		for k := 0; k < n; k++ {
			x := m.threads[(i+k)%n]
			if x.dead {
				continue
			}
			if x.waiting || x.sleeping {
				if x.deadline == 0 || x.deadline > m.now {
					continue
				}
				if x.waiting { // timed out
					x.r[2], x.r[7] = 145, 1 // ETIMEDOUT
				}
				x.waiting, x.sleeping, x.deadline = false, false, 0
			}
			t = x
			i = (i + k + 1) % n
			break
		}
		if t == nil { // advance the clock to the next deadline
			next := uint64(0)
			for _, x := range m.threads {
				if !x.dead && x.deadline != 0 && (next == 0 || x.deadline < next) {
					next = x.deadline
				}
			}
			if next == 0 {
				panic("deadlock: all threads wait")
			}
			m.now = next
			continue
		}
		m.cur = t
		t.linked = false
		m.run(t, quantum)
		m.cur = nil
		if slices++; m.tick != nil && slices%2000 == 0 && !m.tick(m.count) {
			return
		}
	}
}
