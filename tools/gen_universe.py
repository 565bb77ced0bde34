#!/usr/bin/env python3
"""Generates mc/universe/gen.go: the bounded type grammar (all static types), by level."""
import os
LIMS = sorted(set(list(range(0, 13)) + [15,16,17,31,32,33,34,40,63,64,65,96,100,127,128,129,255,256,257,300,
    504,505,511,512,513,600,1000,1024,2048,70000,1<<20,1<<25,1<<26,1<<32,1<<40,(1<<40)+1]))
BVS = list(range(1, 18)) + [23,24,25,31,32,33,63,64,65,127,128,129,247,248,249,255,256,257,263,264,265,503,504,505,511,512,513]
out = []
w = out.append
w("// Code generated by tools/gen_universe.py. DO NOT EDIT.\n\npackage universe\n\nimport \"reflect\"\n")
for n in LIMS:
    w(f"type N{n} struct{{}}\n\nfunc (N{n}) V() uint64 {{ return {n} }}\n")
for b in BVS:
    w(f"type Bv{b} [{(b+7)//8}]byte\n\nfunc (*Bv{b}) BitLen() uint64 {{ return {b} }}\n")

B = lambda n: f"L[byte, N{n}]"
BL = lambda n: f"BL[N{n}]"
def L(t, n): return f"L[{t}, N{n}]"

leaf = ["bool","uint8","uint16","uint32","uint64"]
leaf += [f"[{n}]byte" for n in (0,1,2,3,4,5,7,8,31,32,33,48,63,64,65,96,97,128,129,257)]
leaf += [B(n) for n in (0,1,2,3,5,8,31,32,33,63,64,65,100,257,300,1024,1<<20,1<<40)]
leaf += [f"Bv{b}" for b in BVS]
leaf += [BL(n) for n in (0,1,2,3,4,5,6,7,8,9,10,15,16,17,31,32,33,63,64,65,127,128,255,256,257,504,511,512,513,600,2048,1<<40)]
for t in ("bool","uint16","uint32","uint64"):
    leaf += [f"[{n}]{t}" for n in (0,1,2,3,4,5,8,9,15,16,17,31,32,33,64,65)]
    leaf += [L(t,n) for n in (0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,64,65,100,257,1<<40)]

CFix = "S3[uint16, uint64, bool]"
CVar = "S3[uint8, L[uint16, N3], uint32]"
CVar2 = "S2[L[byte, N5], BL[N9]]"
pool = ["[3]byte","[32]byte","[33]byte",B(5),"Bv9",BL(9),"[2]uint16","[3]bool",L("uint16",3),L("bool",4),L("uint64",5),
        CFix,CVar,CVar2,"S1[bool]","*"+CFix,"*"+CVar,"*uint64","*bool","S2[*uint32, *"+CVar2+"]","Omit1","Squash1","Many33"]
lvl2 = []
for m in pool:
    lvl2 += [L(m,n) for n in (0,1,2,3,5,33)]
    lvl2 += [f"[{n}]{m}" for n in (0,1,2,3,5)]
    lvl2 += ["*"+m, f"S1[{m}]", f"S3[uint8, {m}, uint16]", f"S2[{m}, {m}]", f"S4[L[byte, N3], {m}, L[byte, N2], uint32]"]
lvl2 += ["S0","[0]S0","[2]S0","S2[S0, uint8]","**uint16","*S0","S1[*S0]","Deep","Eth1","Eth2"]
src = []
for m in (B(5), BL(9), L("uint16",3), CVar, "[32]byte", CFix, "*"+CVar, "Bv9"):
    src += [L(m,2), L(m,3), f"[2]{m}", f"S3[uint8, {m}, uint16]", f"S1[{m}]", "*"+m]
lvl3 = []
for m in src:
    lvl3 += [L(m,2), L(m,3), f"[2]{m}", "*"+m, f"S3[uint8, {m}, {B(3)}]"]
lvl4 = []
for m in [L(L(B(5),2),2), L(f"[2]{B(5)}",2), L(f"S1[{B(5)}]",2), f"[2]{L(B(5),2)}", L(L(CVar,2),2), f"S3[uint8, {L(CVar,2)}, {B(3)}]",
          L(f"S3[uint8, {CVar}, uint16]",2), "*"+L(CVar,2), L("*"+CVar,3), f"S1[[2]{CVar}]", L(L("[32]byte",2),2), L(L("uint16",3),3)]:
    lvl4 += [L(m,2), f"[2]{m}", f"S3[{B(3)}, {m}, uint16]", "*"+m]
big = [L(B(1<<26),3), L(BL(1<<26),3), L(L("uint64",1<<20),3), f"[2]{B(1<<26)}", f"S3[uint8, {B(1<<26)}, {B(1<<26)}]", L("S2[uint8, "+B(1<<20)+"]",1024),
       L(B(70000),1024), L("[32]byte",70000), L(CFix,70000), L(CFix,1<<40), L("[32]byte",1<<40), L(B(1<<40),1<<40), L("[48]byte",1024)]
big += [L(t,70000) for t in ("byte","uint16","uint32","uint64","bool","[3]byte","*uint64",B(5),BL(9),"S1[bool]","*"+CVar,CVar,"*"+CFix)]
big += [BL(70000),"S2[uint8, "+L("uint16",70000)+"]","[257]uint16","[300]uint64","[1000]bool","[1100]byte","[513]uint32","[100]*uint64","[70]"+B(5),"[70][3]byte","[2]"+L("uint64",70000)]
def emit(name, xs):
    seen = []
    for x in xs:
        if x not in seen: seen.append(x)
    w(f"var {name} = []Entry{{")
    for x in seen:
        w(f"\t{{\"{x}\", reflect.TypeFor[{x}]()}},")
    w("}\n")
emit("Leaves", leaf); emit("Level2", lvl2); emit("Level3", lvl3); emit("Level4", lvl4); emit("Big", big)
# dynamic-limit types
dyn = ["L[byte, D]","BL[D]","L[bool, D]","L[uint16, D]","L[uint32, D]","L[uint64, D]","L[[32]byte, D]","L[[3]byte, D]",f"L[{CFix}, D]",f"L[{CVar}, D]",
       f"L[{B(5)}, D]","L[S1[bool], D]","L[BL[D], N3]","L[*uint64, D]","S2[uint8, L[uint16, D]]","[2]L[uint16, D]"]
emit("Dynamic", dyn)
emit("DynMore", ["S2[L[uint16, D], uint8]","S3[BL[D], uint16, L[byte, D]]","S2[L[uint64, D], L[L[byte, N5], D]]","S2[S2[uint8, L[bool, D]], L[[3]byte, D]]","S2[L[uint32, D], BL[D]]"])
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc/universe/gen.go")
open(p,"w").write("\n".join(out))
print(sum(len(x) for x in (leaf,lvl2,lvl3,lvl4,big)))
