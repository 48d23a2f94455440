"""Padauk PDK13, PDK14 and PDK15: the instruction set of the Padauk data sheets, with the free-pdk opcode tables."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn, pattern

FZ, FC, FA, FV = 0, 1, 2, 3
FLAG, SP = 0, 2

# i: immediate, m: memory address, n: bit number, a: address of IO or memory, k: code address
T13 = """
nop 0000000000000; retk 00001iiiiiiii; ret 0000000111010; movk 10111iiiiiiii; movioa 00000100aaaaa; movaio 00000101aaaaa; movma 0010111mmmmmm
mova 0011111mmmmmm; ldt16 00000110aaaa1; stt16 00000110aaaa0; idxma 00000111aaaa1; idxmm 00000111aaaa0; xch 0100111mmmmmm; pushaf 0000000110010
popaf 0000000110011; addk 10000iiiiiiii; add 0011000mmmmmm; addm 0010000mmmmmm; subk 10001iiiiiiii; sub 0011001mmmmmm; subm 0010001mmmmmm
addc 0011010mmmmmm; addcm 0010010mmmmmm; addca 0000000010000; addc1 0100000mmmmmm; subc 0011011mmmmmm; subcm 0010011mmmmmm; subca 0000000010001
subc1 0100001mmmmmm; incm 0100100mmmmmm; decm 0100101mmmmmm; clear 0100110mmmmmm; sra 0000000011010; srm 0101010mmmmmm; sla 0000000011011
slm 0101011mmmmmm; srca 0000000011100; srcm 0101100mmmmmm; slca 0000000011101; slcm 0101101mmmmmm; andk 10100iiiiiiii; and 0011100mmmmmm
andm 0010100mmmmmm; ork 10101iiiiiiii; or 0011101mmmmmm; orm 0010101mmmmmm; xork 10110iiiiiiii; xor 0011110mmmmmm; xorm 0010110mmmmmm
xorio 00000011aaaaa; nota 0000000011000; notm 0101000mmmmmm; nega 0000000011001; negm 0101001mmmmmm; set0io 01110nnnaaaaa; set1io 01111nnnaaaaa
set0m 00011nnn0mmmm; set1m 00011nnn1mmmm; t0snio 01100nnnaaaaa; t1snio 01101nnnaaaaa; t0snm 00010nnn0mmmm; t1snm 00010nnn1mmmm
ceqsnk 10010iiiiiiii; ceqsn 0101110mmmmmm; izsna 0000000010010; izsnm 0100010mmmmmm; dzsna 0000000010011; dzsnm 0100011mmmmmm
call 111kkkkkkkkkk; goto 110kkkkkkkkkk; swapa 0000000011110; pcadd 0000000010111; mul 0000000111100
"""
T14 = """
nop 00000000000000; retk 000010iiiiiiii; ret 00000001111010; movk 101111iiiiiiii; movioa 00000110aaaaaa; movaio 00000111aaaaaa; movma 0010111mmmmmmm
mova 0011111mmmmmmm; ldt16 0000110aaaaaa1; stt16 0000110aaaaaa0; idxma 0000111aaaaaa1; idxmm 0000111aaaaaa0; xch 0100111mmmmmmm; pushaf 00000001110010
popaf 00000001110011; addk 101000iiiiiiii; add 0011000mmmmmmm; addm 0010000mmmmmmm; subk 101001iiiiiiii; sub 0011001mmmmmmm; subm 0010001mmmmmmm
addc 0011010mmmmmmm; addcm 0010010mmmmmmm; addca 00000001100000; addc1 0100000mmmmmmm; subc 0011011mmmmmmm; subcm 0010011mmmmmmm; subca 00000001100001
subc1 0100001mmmmmmm; incm 0100100mmmmmmm; decm 0100101mmmmmmm; clear 0100110mmmmmmm; sra 00000001101010; srm 0101010mmmmmmm; sla 00000001101011
slm 0101011mmmmmmm; srca 00000001101100; srcm 0101100mmmmmmm; slca 00000001101101; slcm 0101101mmmmmmm; andk 101100iiiiiiii; and 0011100mmmmmmm
andm 0010100mmmmmmm; ork 101101iiiiiiii; or 0011101mmmmmmm; orm 0010101mmmmmmm; xork 101110iiiiiiii; xor 0011110mmmmmmm; xorm 0010110mmmmmmm
xorio 00000011aaaaaa; nota 00000001101000; notm 0101000mmmmmmm; nega 00000001101001; negm 0101001mmmmmmm; set0io 01110nnnaaaaaa; set1io 01111nnnaaaaaa
set0m 10010nnnmmmmmm; set1m 10011nnnmmmmmm; t0snio 01100nnnaaaaaa; t1snio 01101nnnaaaaaa; t0snm 10000nnnmmmmmm; t1snm 10001nnnmmmmmm
ceqsnk 101010iiiiiiii; ceqsn 0101110mmmmmmm; cneqsnk 101011iiiiiiii; cneqsn 0101111mmmmmmm; izsna 00000001100010; izsnm 0100010mmmmmmm
dzsna 00000001100011; dzsnm 0100011mmmmmmm; call 111kkkkkkkkkkk; goto 110kkkkkkkkkkk; compam 0001100mmmmmmm; compma 0001101mmmmmmm
nadda 0001110mmmmmmm; naddm 0001111mmmmmmm; swapa 00000001101110; pcadd 00000001100111; swapc 00010nnnaaaaaa; mul 00000001111100
"""
T15 = """
nop 000000000000000; retk 0000010iiiiiiii; ret 000000001111010; movk 1010111iiiiiiii; movioa 00000010aaaaaaa; movaio 00000011aaaaaaa; movma 0010111mmmmmmmm
mova 0011111mmmmmmmm; ldt16 0000110aaaaaaa1; stt16 0000110aaaaaaa0; idxma 0000111aaaaaaa1; idxmm 0000111aaaaaaa0; xch 0100111mmmmmmmm; pushaf 000000001110010
popaf 000000001110011; addk 1010000iiiiiiii; add 0011000mmmmmmmm; addm 0010000mmmmmmmm; subk 1010001iiiiiiii; sub 0011001mmmmmmmm; subm 0010001mmmmmmmm
addc 0011010mmmmmmmm; addcm 0010010mmmmmmmm; addca 000000001100000; addc1 0100000mmmmmmmm; subc 0011011mmmmmmmm; subcm 0010011mmmmmmmm; subca 000000001100001
subc1 0100001mmmmmmmm; incm 0100100mmmmmmmm; decm 0100101mmmmmmmm; clear 0100110mmmmmmmm; sra 000000001101010; srm 0101010mmmmmmmm; sla 000000001101011
slm 0101011mmmmmmmm; srca 000000001101100; srcm 0101100mmmmmmmm; slca 000000001101101; slcm 0101101mmmmmmmm; andk 1010100iiiiiiii; and 0011100mmmmmmmm
andm 0010100mmmmmmmm; ork 1010101iiiiiiii; or 0011101mmmmmmmm; orm 0010101mmmmmmmm; xork 1010110iiiiiiii; xor 0011110mmmmmmmm; xorm 0010110mmmmmmmm
xorio 00000001aaaaaaa; nota 000000001101000; notm 0101000mmmmmmmm; nega 000000001101001; negm 0101001mmmmmmmm; set0io 01110nnnaaaaaaa; set1io 01111nnnaaaaaaa
set0m 10010nnnmmmmmmm; set1m 10011nnnmmmmmmm; t0snio 01100nnnaaaaaaa; t1snio 01101nnnaaaaaaa; t0snm 10000nnnmmmmmmm; t1snm 10001nnnmmmmmmm
ceqsnk 1010010iiiiiiii; ceqsn 0101110mmmmmmmm; cneqsnk 1010011iiiiiiii; cneqsn 0101111mmmmmmmm; izsna 000000001100010; izsnm 0100010mmmmmmmm
dzsna 000000001100011; dzsnm 0100011mmmmmmmm; call 111kkkkkkkkkkkk; goto 110kkkkkkkkkkkk; compam 0001100mmmmmmmm; compma 0001101mmmmmmmm
nadda 0001110mmmmmmmm; naddm 0001111mmmmmmmm; swapa 000000001101110; pcadd 000000001100111; swapc 10111nnnaaaaaaa; mul 000000001111100
"""


def table(t, w):
    out = []
    for e in t.replace(";", "\n").strip().split("\n"):
        n, p = e.split()
        assert len(p) == w, (n, p)
        out.append((n, ["0" * (16 - w) + p]))
    return out


class PDK14(CPU):
    sim, name, cls = "pdk", "pdk14", "cl_fpp"
    includes = ["simpdkcl.h", "pdkcl.h", "t16cl.h"]
    cpus = "cpus_pdk"
    args = ["-t", "PDK14"]
    regs = {"A": ("u->rA", 8), "PC": ("u->PC", 32), "T16": ("u->puc->t16->cnt", 16), "MULRH": ("u->puc->rMULRH", 8)}
    mems = {"rom": "u->rom", "ram": "u->ram", "sfr": "u->sfr"}
    memw = {"rom": 16}
    entry = "cl_fpp::exec_inst()"
    setup_extra = "  u= ((cl_pdk*)sim->uc)->fpps[0];\n  u->act();\n"
    tab, w = T14, 14
    assumptions = ["IO reads and writes have no peripheral side effect", "Z is not judged for MOV from memory or IO"]

    def opcodes(self):
        return table(self.tab, self.w)

    def spec(self, S, label, ops):
        f = pattern(ops[0])[1]
        S.only.append(z3.ULT(S["PC"], 0x0E00))
        S.mem_mask = {("sfr", FLAG): 0x0F}
        S["PC"] = S["PC"] + 1
        A = S["A"]
        m = ext(f["m"], 32) if "m" in f else None
        a = ext(f["a"], 32) if "a" in f else None
        i = f.get("i")
        B = lambda v, n=8: z3.BitVecVal(v, n)

        def rd(x):
            return S.rd("ram", ext(x, 32))

        def wr(x, v):
            S.wr("ram", ext(x, 32), v)

        def io(x):
            return S.rd("sfr", ext(x, 32))

        def wio(x, v):
            S.wr("sfr", ext(x, 32), v)

        FL, sp = io(B(FLAG)), io(B(SP))
        C = bit(FL, FC)

        def fl(**k):
            b = [bit(FL, j) for j in range(8)]
            for n, x in k.items():
                j = dict(Z=FZ, C=FC, A=FA, V=FV)[n]
                b[j] = b1(x) if isinstance(x, z3.BoolRef) else x
            wio(B(FLAG), cat(*reversed(b)))

        def add(x, y, c=None):
            c = B(0, 1) if c is None else c
            r = z3.ZeroExt(1, x) + z3.ZeroExt(1, y) + z3.ZeroExt(8, c)
            h = z3.ZeroExt(1, z3.Extract(3, 0, x)) + z3.ZeroExt(1, z3.Extract(3, 0, y)) + z3.ZeroExt(4, c)
            v = z3.Extract(7, 0, r)
            fl(Z=v == 0, C=bit(r, 8), A=bit(h, 4), V=(bit(x, 7) & bit(y, 7) & ~bit(v, 7)) | (~bit(x, 7) & ~bit(y, 7) & bit(v, 7)))
            return v

        def sub(x, y, c=None):
            c = B(0, 1) if c is None else c
            r = z3.ZeroExt(1, x) - z3.ZeroExt(1, y) - z3.ZeroExt(8, c)
            h = z3.ZeroExt(1, z3.Extract(3, 0, x)) - z3.ZeroExt(1, z3.Extract(3, 0, y)) - z3.ZeroExt(4, c)
            v = z3.Extract(7, 0, r)
            fl(Z=v == 0, C=bit(r, 8), A=bit(h, 4), V=(bit(x, 7) & ~bit(y, 7) & ~bit(v, 7)) | (~bit(x, 7) & bit(y, 7) & bit(v, 7)))
            return v

        def skip(c):
            S["PC"] = z3.If(c, S["PC"] + 1, S["PC"])

        def ret():
            s = sp - 2
            wio(B(SP), s)
            S["PC"] = z3.ZeroExt(16, cat(S.rd("ram", ext(s, 32) + 1), rd(s)))

        c8 = z3.ZeroExt(7, C)
        bitm = B(1) << ext(f["n"], 8) if "n" in f else None
        n = label
        if n == "nop":
            pass
        elif n == "retk":
            S["A"] = i
            ret()
        elif n == "ret":
            ret()
        elif n == "movk":
            S["A"] = i
        elif n == "movioa":
            wio(a, A)
        elif n == "movaio":
            S["A"] = io(a)
            S.mem_mask = {("sfr", FLAG): 0x0E}
        elif n == "movma":
            wr(m, A)
        elif n == "mova":
            S["A"] = rd(m)
            S.mem_mask = {("sfr", FLAG): 0x0E}
        elif n == "ldt16":
            wr(a << 1, z3.Extract(7, 0, S["T16"]))
            wr((a << 1) + 1, z3.Extract(15, 8, S["T16"]))
        elif n == "stt16":
            S["T16"] = cat(rd((a << 1) + 1), rd(a << 1))
        elif n == "idxma":
            S["A"] = rd(rd(a << 1))
        elif n == "idxmm":
            wr(rd(a << 1), A)
        elif n == "xch":
            S["A"] = rd(m)
            wr(m, A)
        elif n == "pushaf":
            wr(sp, A)
            S.wr("ram", ext(sp, 32) + 1, FL)
            wio(B(SP), sp + 2)
        elif n == "popaf":
            S.only.append(z3.UGE(sp, 2))
            wio(B(FLAG), rd(sp - 1))
            S["A"] = rd(sp - 2)
            wio(B(SP), sp - 2)
        elif n == "addk":
            S["A"] = add(A, i)
        elif n == "add":
            S["A"] = add(A, rd(m))
        elif n == "addm":
            wr(m, add(A, rd(m)))
        elif n == "subk":
            S["A"] = sub(A, i)
        elif n == "sub":
            S["A"] = sub(A, rd(m))
        elif n == "subm":
            wr(m, sub(rd(m), A))
        elif n == "addc":
            S["A"] = add(A, rd(m), C)
        elif n == "addcm":
            wr(m, add(A, rd(m), C))
        elif n == "addca":
            S["A"] = add(A, B(0), C)
        elif n == "addc1":
            wr(m, add(rd(m), B(0), C))
        elif n == "subc":
            S["A"] = sub(A, rd(m), C)
        elif n == "subcm":
            wr(m, sub(rd(m), A, C))
        elif n == "subca":
            S["A"] = sub(A, B(0), C)
        elif n == "subc1":
            wr(m, sub(rd(m), B(0), C))
        elif n == "incm":
            wr(m, add(rd(m), B(1)))
        elif n == "decm":
            wr(m, sub(rd(m), B(1)))
        elif n == "clear":
            wr(m, B(0))
        elif n in ("sra", "srm", "sla", "slm", "srca", "srcm", "slca", "slcm"):
            v = A if n[-1] == "a" else rd(m)
            o = n[:-1]
            r = {"sr": z3.LShR(v, 1), "sl": v << 1, "src": cat(C, z3.Extract(7, 1, v)), "slc": cat(z3.Extract(6, 0, v), C)}[o]
            fl(C=bit(v, 0 if o[1] == "r" else 7))
            if n[-1] == "a":
                S["A"] = r
            else:
                wr(m, r)
        elif n in ("andk", "and", "andm", "ork", "or", "orm", "xork", "xor", "xorm"):
            o = n.rstrip("km")
            v = i if n[-1] == "k" else rd(m)
            r = {"and": A & v, "or": A | v, "xor": A ^ v}[o]
            fl(Z=r == 0)
            if n[-1] == "m":
                wr(m, r)
            else:
                S["A"] = r
        elif n == "xorio":
            wio(a, io(a) ^ A)
        elif n in ("nota", "notm", "nega", "negm"):
            v = A if n[-1] == "a" else rd(m)
            r = ~v if n[:3] == "not" else -v
            fl(Z=r == 0)
            if n[-1] == "a":
                S["A"] = r
            else:
                wr(m, r)
        elif n == "set0io":
            wio(a, io(a) & ~bitm)
        elif n == "set1io":
            wio(a, io(a) | bitm)
        elif n == "set0m":
            wr(m, rd(m) & ~bitm)
        elif n == "set1m":
            wr(m, rd(m) | bitm)
        elif n in ("t0snio", "t1snio", "t0snm", "t1snm"):
            v = io(a) if n.endswith("io") else rd(m)
            skip((v & bitm == 0) if n[1] == "0" else (v & bitm != 0))
        elif n in ("ceqsnk", "ceqsn", "cneqsnk", "cneqsn"):
            v = i if n[-1] == "k" else rd(m)
            sub(A, v)
            skip(A == v if n[1] == "e" else A != v)
        elif n == "izsna":
            S["A"] = add(A, B(1))
            skip(S["A"] == 0)
        elif n == "dzsna":
            S["A"] = sub(A, B(1))
            skip(S["A"] == 0)
        elif n in ("izsnm", "dzsnm"):
            r = (add if n[0] == "i" else sub)(rd(m), B(1))
            wr(m, r)
            skip(r == 0)
        elif n == "call":
            p = S["PC"]
            wr(sp, z3.Extract(7, 0, p))
            S.wr("ram", ext(sp, 32) + 1, z3.Extract(15, 8, p))
            wio(B(SP), sp + 2)
            S["PC"] = ext(f["k"], 32)
        elif n == "goto":
            S["PC"] = ext(f["k"], 32)
        elif n == "compam":
            sub(A, rd(m))
        elif n == "compma":
            sub(rd(m), A)
        elif n == "nadda":
            S["A"] = add(rd(m), -A)
        elif n == "naddm":
            wr(m, add(-rd(m), A))
        elif n == "swapa":
            S["A"] = cat(z3.Extract(3, 0, A), z3.Extract(7, 4, A))
        elif n == "pcadd":
            S["PC"] = S["PC"] - 1 + z3.ZeroExt(24, A)
        elif n == "swapc":
            S.only.append(a != FLAG)
            v = io(a)
            wio(a, z3.If(C == 1, v | bitm, v & ~bitm))
            fl(C=v & bitm != 0)
        elif n == "mul":
            r = z3.ZeroExt(8, A) * z3.ZeroExt(8, io(B(8)))
            S["A"], S["MULRH"] = z3.Extract(7, 0, r), z3.Extract(15, 8, r)
        else:
            raise AssertionError(n)


class PDK13(PDK14):
    name = "pdk13"
    args = ["-t", "PDK13"]
    tab, w = T13, 13


class PDK15(PDK14):
    name = "pdk15"
    args = ["-t", "PDK15"]
    tab, w = T15, 15


CPUS = [PDK13, PDK14, PDK15]
