"""Motorola M6800 (M6800 programming reference manual), MC6801 (MC6801 reference manual), M68HC11 (M68HC11 reference manual)."""
import z3
from ..isa import CPU, ext, sx, cat, bit, b1

FC, FV, FZ, FN, FI, FH = range(6)
ALU = {0: "sub", 1: "cmp", 2: "sbc", 4: "and", 5: "bit", 6: "lda", 7: "sta", 8: "eor", 9: "adc", 0xA: "ora", 0xB: "add"}
RMW = {0: "neg", 3: "com", 4: "lsr", 6: "ror", 7: "asr", 8: "asl", 9: "rol", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}
ROW = ["imm", "dir", "idx", "ext"]


class M6800(CPU):
    sim, name, cls = "m6800", "m6800", "cl_m6800"
    includes = ["simm6800cl.h", "m6800cl.h", "m6801cl.h"]
    cpus = "cpus_m6800"
    args = ["-t", "M6800"]
    regs = {"A": ("u->acc.DAB.a8.Ar", 8), "B": ("u->acc.DAB.a8.Br", 8), "P": ("u->CC.cc16.cc8.ccl", 8), "X": ("u->IX", 16), "SP": ("u->SP", 16),
            "PC": ("u->PC", 16), "STATE": ("*(int*)&u->state", 32), "WAI": ("*(u8_t*)&u->wai", 1)}
    mems = {"rom": "u->rom"}
    entry = "cl_m6800::exec_inst()"
    watch = {k: v for k, v in CPU.watch.items() if k != "state"}
    idle = 1                                             # stIDLE
    gen = 0                                              # 0: M6800, 1: MC6801, 2: M68HC11

    def opcodes(self):
        g = self.gen
        out = []
        for o in range(256):
            hi, lo = o >> 4, o & 15
            if hi == 0:
                ok = o == 1 or o >= 6 or g and o in (4, 5) or g == 2 and o in (2, 3)
            elif hi == 1:
                ok = o in (0x10, 0x11, 0x16, 0x17, 0x19, 0x1B) or g == 2 and lo in (2, 3, 4, 5, 0xC, 0xD, 0xE, 0xF)
            elif hi == 2:
                ok = o != 0x21 or g > 0
            elif hi == 3:
                ok = o in (*range(0x30, 0x38), 0x39, 0x3B, 0x3E) or g and o in (0x38, 0x3A, 0x3C, 0x3D)
            elif hi < 8:
                ok = lo in RMW or lo == 0xE and hi >= 6
            else:
                m = hi & 3
                ok = lo in ALU and not (lo == 7 and m == 0) or lo == 0xE or lo == 0xF and m
                if hi < 12:
                    ok = ok or lo == 0xC or lo == 0xD and (m != 1 or g) or lo == 3 and g
                else:
                    ok = ok or g and (lo in (3, 0xC) or lo == 0xD and m)
                ok = ok or g == 2 and o == 0x8F
            if ok:
                out.append((f"{o:02x}", [o]))
        if g == 2:
            p18 = [8, 9, 0x1C, 0x1D, 0x1E, 0x1F, 0x30, 0x35, 0x38, 0x3A, 0x3C, *(0x60 | i for i in (*RMW, 0xE)), 0x8C, 0x8F, 0x9C, 0xBC, *range(0xA0, 0xB0), *range(0xE0, 0xF0),
                   0xCE, 0xDE, 0xFE, 0xDF, 0xFF]
            for p, l in ((0x18, sorted(p18)), (0x1A, [0x83, 0x93, 0xA3, 0xB3, 0xAC, 0xEE, 0xEF]), (0xCD, [0xA3, 0xAC, 0xEE, 0xEF])):
                for o in l:
                    out.append((f"{p:02x}{o:02x}", [p, o]))
        return out

    def spec(self, S, label, ops):
        g = self.gen
        op = ops[-1]
        page = ops[0] if len(ops) == 2 else 0
        IR = "Y" if page in (0x18, 0xCD) else "X"            # the index register of the indexed mode
        XR = "Y" if page in (0x18, 0x1A) else "X"            # the index register operated on
        hi, lo = op >> 4, op & 15
        S.only.append(z3.Extract(7, 6, S["P"]) == 3)         # the two unused bits of the CCR are always set
        if g == 2:
            S.care["P"] = 0x3F
            S.care["CI"] = 0
        S.only.append(S["STATE"] == 0)
        S.only.append(S["WAI"] == 0)
        S["PC"] = S["PC"] + len(ops)
        A, B, C = S["A"], S["B"], bit(S["P"], FC)
        D = cat(A, B)
        Z0 = z3.BitVecVal(0, 1)

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def fetch16():
            h = fetch()
            return cat(h, fetch())

        def rd(a):
            return S.rd("rom", a)

        def rd16(a):
            return cat(rd(a), rd(a + 1))

        def wr16(a, v):
            S.wr("rom", a, z3.Extract(15, 8, v))
            S.wr("rom", a + 1, z3.Extract(7, 0, v))

        def fl(**k):
            b = [bit(S["P"], i) for i in range(8)]
            for n, x in k.items():
                i = dict(C=FC, V=FV, Z=FZ, N=FN, I=FI, H=FH)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["P"] = cat(*reversed(b))

        def nz(v, **k):
            fl(N=bit(v, v.size() - 1), Z=v == 0, **k)

        def setd(v):
            S["A"], S["B"] = z3.Extract(15, 8, v), z3.Extract(7, 0, v)

        def push(v):
            S.wr("rom", S["SP"], v)
            S["SP"] = S["SP"] - 1

        def pop():
            S["SP"] = S["SP"] + 1
            return rd(S["SP"])

        def push16(v):
            push(z3.Extract(7, 0, v))
            push(z3.Extract(15, 8, v))

        def pop16():
            h = pop()
            return cat(h, pop())

        def ea(mode):
            if mode == "dir":
                return z3.ZeroExt(8, fetch())
            if mode == "ext":
                return fetch16()
            return S[IR] + z3.ZeroExt(8, fetch())

        def rel(c):
            d = fetch()
            S["PC"] = z3.If(c, S["PC"] + sx(d, 16), S["PC"])

        def sub(a, b, borrow=Z0):
            w = a.size()
            r = z3.ZeroExt(1, a) - z3.ZeroExt(1, b) - z3.ZeroExt(w, borrow)
            v = z3.Extract(w - 1, 0, r)
            sa, sb, sr = bit(a, w - 1), bit(b, w - 1), bit(v, w - 1)
            nz(v, C=bit(r, w), V=(sa & ~sb & ~sr) | (~sa & sb & sr))
            return v

        def add(a, b, ci=Z0):
            w = a.size()
            r = z3.ZeroExt(1, a) + z3.ZeroExt(1, b) + z3.ZeroExt(w, ci)
            v = z3.Extract(w - 1, 0, r)
            sa, sb, sr = bit(a, w - 1), bit(b, w - 1), bit(v, w - 1)
            k = {}
            if w == 8:
                k["H"] = bit(z3.ZeroExt(1, z3.Extract(3, 0, a)) + z3.ZeroExt(1, z3.Extract(3, 0, b)) + z3.ZeroExt(4, ci), 4)
            nz(v, C=bit(r, w), V=(sa & sb & ~sr) | (~sa & ~sb & sr), **k)
            return v

        P = S["P"]
        f = {n: bit(P, i) == 1 for n, i in dict(C=FC, V=FV, Z=FZ, N=FN, I=FI, H=FH).items()}
        # cycles
        t = 2
        if page:
            t = None
        # -------------------------------------------------------------------------------
        if op == 0x01 and not page:
            pass
        elif op in (2, 3):
            n, d = (D, S["X"]) if op == 2 else (z3.ZeroExt(16, D) << 16, z3.ZeroExt(16, S["X"]))
            zero, over = S["X"] == 0, (z3.ULE(S["X"], D) if op == 3 else z3.BoolVal(False))
            bad = z3.Or(zero, over)
            q = z3.If(bad, z3.BitVecVal(0xFFFF, 16), z3.Extract(15, 0, z3.UDiv(n, d)))
            r = z3.Extract(15, 0, z3.URem(n, d))
            S["X"] = q
            setd(r)
            for x in "AB":                               # the remainder is then indeterminate
                S.care[x] = z3.If(bad, z3.BitVecVal(0, 8), z3.BitVecVal(0xFF, 8))
            fl(Z=q == 0, C=zero, V=over)
            t = 41
        elif op == 4:
            r = z3.LShR(D, 1)
            setd(r)
            fl(N=0, Z=r == 0, V=bit(D, 0), C=bit(D, 0))
            t = 3
        elif op == 5:
            r = D << 1
            setd(r)
            nz(r, V=bit(r, 15) ^ bit(D, 15), C=bit(D, 15))
            t = 3
        elif op == 6:
            S["P"] = A | 0xC0
        elif op == 7:
            S["A"] = P | 0xC0
            if g == 2:
                S.care["A"] = 0x3F
        elif op in (8, 9):
            r = S[XR] + (1 if op == 8 else -1)
            S[XR] = r
            fl(Z=r == 0)
            t = 3 if g else 4
        elif op in (0xA, 0xB):
            fl(V=op & 1)
        elif op in (0xC, 0xD):
            fl(C=op & 1)
        elif op in (0xE, 0xF):
            fl(I=op & 1)
        elif op == 0x10:
            S["A"] = sub(A, B)
        elif op == 0x11:
            sub(A, B)
        elif op in (0x12, 0x13, 0x1E, 0x1F, 0x14, 0x15, 0x1C, 0x1D):
            a = ea("idx" if lo >= 0xC else "dir")
            v, m = rd(a), fetch()
            if op in (0x12, 0x1E):
                rel((~v & m) == 0)
            elif op in (0x13, 0x1F):
                rel((v & m) == 0)
            else:
                r = v | m if op in (0x14, 0x1C) else v & ~m
                S.wr("rom", a, r)
                nz(r, V=0)
            t = 7 if lo >= 0xC else 6
        elif op == 0x16:
            S["B"] = A
            nz(A, V=0)
        elif op == 0x17:
            S["A"] = B
            nz(B, V=0)
        elif op == 0x19:
            ln, mn = z3.Extract(3, 0, A), z3.Extract(7, 4, A)
            lowc = z3.Or(z3.UGT(ln, 9), f["H"])
            hic = z3.Or(f["C"], z3.UGT(A, 0x99))
            r = A + z3.If(lowc, z3.BitVecVal(6, 8), z3.BitVecVal(0, 8)) + z3.If(hic, z3.BitVecVal(0x60, 8), z3.BitVecVal(0, 8))
            S["A"] = r
            nz(r, C=hic)
            S.care["P"] = 0x3D if g == 2 else 0xFD           # V is undefined
            # the manual's table: what the addition of two BCD numbers can leave
            S.only.append(z3.Or(z3.Not(f["H"]), z3.ULE(ln, 3)))
            S.only.append(z3.Or(z3.Not(f["C"]), z3.ULE(mn, 3)))
            S.only.append(z3.Or(z3.Not(f["C"]), f["H"], z3.ULE(mn, 2)))
        elif op == 0x1B:
            S["A"] = add(A, B)
        elif hi == 2:
            sgn = f["N"] != f["V"]
            cond = {0x20: z3.BoolVal(True), 0x22: z3.Not(z3.Or(f["C"], f["Z"])), 0x24: z3.Not(f["C"]), 0x26: z3.Not(f["Z"]), 0x28: z3.Not(f["V"]),
                    0x2A: z3.Not(f["N"]), 0x2C: z3.Not(sgn), 0x2E: z3.Not(z3.Or(f["Z"], sgn))}[op & 0xFE]
            rel(z3.Not(cond) if op & 1 else cond)
            t = 3 if g else 4
        elif hi == 3:
            t = {0: (4, 3), 1: (4, 3), 2: (4, 4), 3: (4, 4), 4: (4, 3), 5: (4, 3), 6: (4, 3), 7: (4, 3), 8: (0, 5), 9: (5, 5), 0xA: (0, 3),
                 0xB: (10, 12 if g == 2 else 10), 0xC: (0, 4), 0xD: (0, 10), 0xE: (9, 14 if g == 2 else 9)}[lo][g > 0]
            if lo == 0:
                S[XR] = S["SP"] + 1
            elif lo in (1, 4):
                S["SP"] = S["SP"] + (1 if lo == 1 else -1)
            elif lo in (2, 3):
                S["AB"[lo & 1]] = pop()
            elif lo == 5:
                S["SP"] = S[XR] - 1
            elif lo in (6, 7):
                push(S["AB"[lo & 1]])
            elif lo == 8:
                S[XR] = pop16()
            elif lo == 9:
                S["PC"] = pop16()
            elif lo == 0xA:
                S[XR] = S[XR] + z3.ZeroExt(8, B)
            elif lo == 0xC:
                push16(S[XR])
            elif lo == 0xD:
                r = z3.ZeroExt(8, A) * z3.ZeroExt(8, B)
                setd(r)
                fl(C=bit(r, 7))
            elif lo == 0xB:
                p = pop()
                S["P"] = p | 0xC0
                S["B"] = pop()
                S["A"] = pop()
                S["X"] = pop16()
                if g == 2:
                    S["Y"] = pop16()
                S["PC"] = pop16()
            elif lo == 0xE:
                push16(S["PC"])
                if g == 2:
                    push16(S["Y"])
                push16(S["X"])
                push(A)
                push(B)
                push(P)
                S["WAI"] = 1
                S["STATE"] = self.idle
        elif hi in (4, 5, 6, 7) and lo == 0xE:
            S["PC"] = ea("idx" if hi == 6 else "ext")
            t = (4 if hi == 6 else 3) if g == 0 else 3
        elif hi in (4, 5, 6, 7):
            t = 2 if hi < 6 else 6 if g or hi == 7 else 7
            a = None
            if hi < 6:
                v = A if hi == 4 else B
            else:
                a = ea("idx" if hi == 6 else "ext")
                v = rd(a)
            m = RMW[lo]
            if m == "neg":
                r = -v
                nz(r, C=r != 0, V=r == 0x80)
            elif m == "com":
                r = ~v
                nz(r, C=1, V=0)
            elif m in ("lsr", "ror", "asr"):
                r = cat({"lsr": Z0, "ror": C, "asr": bit(v, 7)}[m], z3.Extract(7, 1, v))
                nz(r, C=bit(v, 0), V=bit(r, 7) ^ bit(v, 0))
            elif m in ("asl", "rol"):
                r = cat(z3.Extract(6, 0, v), C if m == "rol" else Z0)
                nz(r, C=bit(v, 7), V=bit(r, 7) ^ bit(v, 7))
            elif m == "dec":
                r = v - 1
                nz(r, V=v == 0x80)
            elif m == "inc":
                r = v + 1
                nz(r, V=v == 0x7F)
            elif m == "tst":
                r = None
                nz(v, V=0, C=0)
            else:
                r = z3.BitVecVal(0, 8)
                nz(r, V=0, C=0)
            if r is not None:
                if a is None:
                    S["A" if hi == 4 else "B"] = r
                else:
                    S.wr("rom", a, r)
        elif op == 0x8F:
            x = S[XR]
            S[XR] = D
            setd(x)
            t = 3
        elif op == 0x8D:
            d = fetch()
            push16(S["PC"])
            S["PC"] = S["PC"] + sx(d, 16)
            t = 6 if g else 8
        elif lo == 0xD and hi < 12:
            a = ea(ROW[hi & 3])
            push16(S["PC"])
            S["PC"] = a
            t = {1: 5, 2: 6, 3: 6}[hi & 3] if g else {2: 8, 3: 9}[hi & 3]
        else:
            mode = ROW[hi & 3]
            r = "A" if hi < 12 else "B"
            t = dict(imm=2, dir=3, idx=4 if g else 5, ext=4)[mode]
            if lo in ALU:
                m = ALU[lo]
                if m == "sta":
                    S.wr("rom", ea(mode), S[r])
                    nz(S[r], V=0)
                    t += 0 if g else 1
                else:
                    v = fetch() if mode == "imm" else rd(ea(mode))
                    if m in ("add", "adc"):
                        S[r] = add(S[r], v, C if m == "adc" else Z0)
                    elif m in ("sub", "sbc"):
                        S[r] = sub(S[r], v, C if m == "sbc" else Z0)
                    elif m == "cmp":
                        sub(S[r], v)
                    elif m == "lda":
                        S[r] = v
                        nz(v, V=0)
                    else:
                        x = {"and": S[r] & v, "bit": S[r] & v, "eor": S[r] ^ v, "ora": S[r] | v}[m]
                        nz(x, V=0)
                        if m != "bit":
                            S[r] = x
            elif lo == 0xF or lo == 0xD:                     # store the 16 bit register
                v = D if lo == 0xD else S["SP"] if hi < 12 else S[XR]
                wr16(ea(mode), v)
                nz(v, V=0)
                t += 1 if g else 2
            else:
                v = fetch16() if mode == "imm" else rd16(ea(mode))
                t += 1
                if lo == 0xE:                                # LDS, LDX
                    S["SP" if hi < 12 else XR] = v
                    nz(v, V=0)
                elif lo == 0xC and hi >= 12:                 # LDD
                    setd(v)
                    nz(v, V=0)
                elif lo == 3:                                # SUBD, ADDD; CPD
                    t += 1
                    if page in (0x1A, 0xCD):
                        sub(D, v)
                    else:
                        setd((sub if hi < 12 else add)(D, v))
                elif lo == 0xC:                              # CPX
                    x = S[XR]
                    t += 1 if g else 0
                    sub(x, v)
                    if g == 0:
                        fl(C=C)
                        # N and V are of the subtraction of the upper bytes: judged where a borrow from the lower ones makes no difference
                        S.care["P"] = z3.If(z3.ULT(z3.Extract(7, 0, x), z3.Extract(7, 0, v)), z3.BitVecVal(0xF5, 8), z3.BitVecVal(0xFF, 8))
                else:
                    raise NotImplementedError(label)
        if page:
            t0 = self.page0_ticks(op, page)
            t = t0
        S.ticks = t

    def page0_ticks(self, op, page):
        """M68HC11 reference manual: the pages take one cycle more than the same instruction on page 0"""
        hi, lo = op >> 4, op & 15
        if page == 0x18 and op in (8, 9, 0x30, 0x35, 0x3A, 0x8F):
            return 4
        return {0x38: 6, 0x3C: 5, 0x1C: 8, 0x1D: 8, 0x1E: 8, 0x1F: 8, 0x6E: 4}.get(op) or \
            (7 if hi == 6 else
             ({0: 4, 1: 5, 2: 6, 3: 6}[hi & 3] + 1) if lo in (3, 0xC) and not (lo == 0xC and hi >= 12) else
             6 + 1 if lo == 0xD and hi < 12 else
             {0: 3, 1: 4, 2: 5, 3: 5}[hi & 3] + 1 if lo in (0xC, 0xE) else
             {1: 4, 2: 5, 3: 5}[hi & 3] + 1 if lo in (0xD, 0xF) else 4 + 1)


class M6801(M6800):
    name, cls = "m6801", "cl_m6801"
    args = ["-t", "M6801"]
    gen = 1


class HC11(M6800):
    sim, name, cls = "m68hc11", "m68hc11", "cl_m68hc11"
    includes = ["simm68hc11cl.h", "m68hc11cl.h"]
    cpus = "cpus_m68hc11"
    args = []
    regs = dict(M6800.regs, Y=("u->IY", 16), CI=("*(u64_t*)&u->cI", 64))      # cI: which index register; chosen anew by every instruction
    gen = 2


CPUS = [M6800, M6801, HC11]
