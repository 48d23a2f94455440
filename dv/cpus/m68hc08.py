"""Motorola/Freescale M68HC08 and HCS08: the CPU08 reference manual (CPU08RM) and the HCS08 family reference manual."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn

FC, FZ, FN, FI, FH, FV = 0, 1, 2, 3, 4, 7
ALU = {0: "sub", 1: "cmp", 2: "sbc", 3: "cpx", 4: "and", 5: "bit", 6: "lda", 7: "sta", 8: "eor", 9: "adc", 0xA: "ora", 0xB: "add", 0xE: "ldx", 0xF: "stx"}
RMW = {0: "neg", 3: "com", 4: "lsr", 6: "ror", 7: "asr", 8: "lsl", 9: "rol", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}
ROW = {0xA: "imm", 0xB: "dir", 0xC: "ext", 0xD: "ix2", 0xE: "ix1", 0xF: "ix"}
RROW = {3: "dir", 4: "A", 5: "X", 6: "ix1", 7: "ix"}


class HC08(CPU):
    sim, name, cls = "m68hc08", "hc08", "cl_hc08"
    includes = ["simm68hc08cl.h", "m68hc08cl.h"]
    cpus = "cpus_m68hc08"
    args = ["-t", "HC08"]
    regs = {"A": ("u->regs.A", 8), "P": ("u->regs.P", 8), "H": ("u->regs.H", 8), "X": ("u->regs.X", 8), "SP": ("u->regs.SP", 16), "PC": ("u->PC", 16)}
    mems = {"rom": "u->rom"}
    entry = "cl_hc08::exec_inst()"
    setup_extra = "  u->regs.VECTOR= 0;\n"          # the reset vector has been taken
    watch = dict(CPU.watch, vector="u->regs.VECTOR")
    hcs = False

    def opcodes(self):
        out = []
        for o in range(256):
            hi, lo = o >> 4, o & 15
            if hi in (0, 1, 2):
                pass
            elif hi in RROW:
                if lo in RMW or lo in (1, 0xB):
                    pass
                elif o in (0x35, 0x45, 0x55, 0x65, 0x75, 0x42, 0x52, 0x62, 0x72, 0x4E, 0x5E, 0x6E, 0x7E):
                    pass
                elif o in (0x32, 0x3E) and self.hcs:
                    pass
                else:
                    continue
            elif hi == 8:
                if lo in (2, 0xD, 0xE, 0xF):              # BGND, RTC, STOP, WAIT
                    continue
            elif hi == 9:
                if o == 0x9E or (o == 0x96 and not self.hcs):
                    continue
            elif o == 0xAC:                              # CALL
                continue
            out.append((f"{o:02x}", [o]))
        for o in range(256):
            hi, lo = o >> 4, o & 15
            if hi == 6 and (lo in RMW or lo in (1, 0xB)) or hi in (0xD, 0xE) and lo in ALU or self.hcs and o in (0xAE, 0xBE, 0xCE, 0xFE, 0xFF, 0xF3):
                out.append((f"9e{o:02x}", [0x9E, o]))
        return out

    def spec(self, S, label, ops):
        op = ops[-1]
        pre = len(ops) == 2
        hi, lo = op >> 4, op & 15
        S.only.append(z3.Extract(6, 5, S["P"]) == 3)     # the two unused bits of the CCR are always set
        S["PC"] = S["PC"] + len(ops)
        A, X, H, C = S["A"], S["X"], S["H"], bit(S["P"], FC)
        HX = cat(H, X)

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def fetch16():
            h = fetch()
            return cat(h, fetch())

        def rd(a):
            return S.rd("rom", a)

        def rd16(a):
            return cat(rd(a), rd(a + 1))

        def fl(**k):
            b = [bit(S["P"], i) for i in range(8)]
            for n, x in k.items():
                i = dict(C=FC, Z=FZ, N=FN, I=FI, H=FH, V=FV)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["P"] = cat(*reversed(b))

        def nz(v, **k):
            fl(N=bit(v, v.size() - 1), Z=v == 0, **k)

        def hx(v):
            S["H"], S["X"] = z3.Extract(15, 8, v), z3.Extract(7, 0, v)

        def push(v):
            S.wr("rom", S["SP"], v)
            S["SP"] = S["SP"] - 1

        def pop():
            S["SP"] = S["SP"] + 1
            return rd(S["SP"])

        def push16(v):
            push(z3.Extract(7, 0, v))
            push(z3.Extract(15, 8, v))

        def pop16():
            h = pop()
            return cat(h, pop())

        def ea(mode):
            if mode == "dir":
                return z3.ZeroExt(8, fetch())
            if mode == "ext":
                return fetch16()
            base = S["SP"] if pre else HX
            if mode == "ix":
                return base
            return base + (fetch16() if mode == "ix2" else z3.ZeroExt(8, fetch()))

        def rel(c):
            d = fetch()
            S["PC"] = z3.If(c, S["PC"] + sx(d, 16), S["PC"])

        def incx():
            hx(HX + 1)

        def sub(a, b, borrow):
            w = a.size()
            r = z3.ZeroExt(1, a) - z3.ZeroExt(1, b) - z3.ZeroExt(w, borrow)
            v = z3.Extract(w - 1, 0, r)
            sa, sb, sr = bit(a, w - 1), bit(b, w - 1), bit(v, w - 1)
            nz(v, C=bit(r, w), V=(sa & ~sb & ~sr) | (~sa & sb & sr))
            return v

        def alu(m, mode):
            if m in ("sta", "stx"):
                v = A if m == "sta" else X
                S.wr("rom", ea(mode), v)
                nz(v, V=0)
                return
            v = fetch() if mode == "imm" else rd(ea(mode))
            if m in ("add", "adc"):
                ci = C if m == "adc" else z3.BitVecVal(0, 1)
                r = z3.ZeroExt(1, A) + z3.ZeroExt(1, v) + z3.ZeroExt(8, ci)
                h = z3.ZeroExt(1, z3.Extract(3, 0, A)) + z3.ZeroExt(1, z3.Extract(3, 0, v)) + z3.ZeroExt(4, ci)
                x = z3.Extract(7, 0, r)
                sa, sb, sr = bit(A, 7), bit(v, 7), bit(x, 7)
                nz(x, C=bit(r, 8), H=bit(h, 4), V=(sa & sb & ~sr) | (~sa & ~sb & sr))
                S["A"] = x
            elif m in ("sub", "sbc"):
                S["A"] = sub(A, v, C if m == "sbc" else z3.BitVecVal(0, 1))
            elif m in ("cmp", "cpx"):
                sub(A if m == "cmp" else X, v, z3.BitVecVal(0, 1))
            elif m in ("lda", "ldx"):
                S["A" if m == "lda" else "X"] = v
                nz(v, V=0)
            else:
                r = {"and": A & v, "bit": A & v, "eor": A ^ v, "ora": A | v}[m]
                nz(r, V=0)
                if m != "bit":
                    S["A"] = r

        def rmw(m, mode):
            a = None
            if mode in ("A", "X"):
                v = S[mode]
            else:
                a = ea(mode)
                v = rd(a)
            if m == "neg":
                r = -v
                nz(r, C=r != 0, V=r == 0x80)
            elif m == "com":
                r = ~v
                nz(r, C=1, V=0)
            elif m in ("lsr", "ror", "asr"):
                top = {"lsr": z3.BitVecVal(0, 1), "ror": C, "asr": bit(v, 7)}[m]
                r = cat(top, z3.Extract(7, 1, v))
                nz(r, C=bit(v, 0), V=bit(r, 7) ^ bit(v, 0))
            elif m in ("lsl", "rol"):
                r = cat(z3.Extract(6, 0, v), C if m == "rol" else z3.BitVecVal(0, 1))
                nz(r, C=bit(v, 7), V=bit(r, 7) ^ bit(v, 7))
            elif m == "dec":
                r = v - 1
                nz(r, V=v == 0x80)
            elif m == "inc":
                r = v + 1
                nz(r, V=v == 0x7F)
            elif m == "tst":
                nz(v, V=0)
                return
            elif m == "clr":
                r = z3.BitVecVal(0, 8)
                nz(r, V=0)
            if a is None:
                S[mode] = r
            else:
                S.wr("rom", a, r)
        P = S["P"]
        f = {n: bit(P, i) == 1 for n, i in dict(C=FC, Z=FZ, N=FN, I=FI, H=FH, V=FV).items()}

        def ldst(m, a):
            if m == "sthx":
                S.wr("rom", a, H)
                S.wr("rom", a + 1, X)
                nz(HX, V=0)
            elif m == "cphx":
                sub(HX, rd16(a), z3.BitVecVal(0, 1))
            else:
                v = rd16(a)
                hx(v)
                nz(v, V=0)
        if pre and op in (0xAE, 0xBE, 0xCE, 0xFE, 0xFF, 0xF3):
            a = {0xAE: lambda: HX, 0xBE: lambda: HX + fetch16(), 0xCE: lambda: HX + z3.ZeroExt(8, fetch())}.get(
                op, lambda: S["SP"] + z3.ZeroExt(8, fetch()))()
            ldst({0xFF: "sthx", 0xF3: "cphx"}.get(op, "ldhx"), a)
        elif hi == 0:
            v = rd(ea("dir"))
            b = bit(v, lo >> 1)
            fl(C=b)
            rel(b == 1 - (lo & 1))
        elif hi == 1:
            a = ea("dir")
            v = rd(a)
            m = 1 << (lo >> 1)
            S.wr("rom", a, v & (0xFF ^ m) if lo & 1 else v | m)
        elif hi == 2 or hi == 9 and lo < 4:
            t = z3.BoolVal(False)
            sgn = f["N"] != f["V"]
            cond = {0x20: z3.BoolVal(True), 0x22: z3.Not(z3.Or(f["C"], f["Z"])), 0x24: z3.Not(f["C"]), 0x26: z3.Not(f["Z"]), 0x28: z3.Not(f["H"]),
                    0x2A: z3.Not(f["N"]), 0x2C: z3.Not(f["I"]), 0x2E: t, 0x90: z3.Not(sgn), 0x92: z3.Not(z3.Or(f["Z"], sgn))}[op & 0xFE]
            rel(z3.Not(cond) if op & 1 else cond)
        elif hi in RROW and lo in RMW:
            rmw(RMW[lo], RROW[hi])
        elif hi in RROW and lo == 1:
            if hi in (4, 5):
                c = (A if hi == 4 else X) == fetch()
            else:
                c = A == rd(ea(RROW[hi]))
                if hi == 7 or hi == 6 and not pre:
                    incx()
            rel(c)
        elif hi in RROW and lo == 0xB:
            if hi in (4, 5):
                r = S[RROW[hi]] - 1
                S[RROW[hi]] = r
            else:
                a = ea(RROW[hi])
                r = rd(a) - 1
                S.wr("rom", a, r)
            rel(r != 0)
        elif op == 0x45:
            v = fetch16()
            hx(v)
            nz(v, V=0)
        elif op == 0x65:
            sub(HX, fetch16(), z3.BitVecVal(0, 1))
        elif op in (0x35, 0x55, 0x75):
            ldst({0x35: "sthx", 0x55: "ldhx", 0x75: "cphx"}[op], ea("dir"))
        elif op in (0x32, 0x96, 0x3E):
            ldst({0x96: "sthx", 0x32: "ldhx", 0x3E: "cphx"}[op], fetch16())
        elif op == 0x42:
            r = z3.ZeroExt(8, X) * z3.ZeroExt(8, A)
            S["X"], S["A"] = z3.Extract(15, 8, r), z3.Extract(7, 0, r)
            fl(C=0, H=0)
        elif op == 0x52:
            n, d = cat(H, A), z3.ZeroExt(8, X)
            q, r = z3.UDiv(n, d), z3.URem(n, d)
            ok = z3.And(X != 0, z3.ULE(q, 0xFF))
            # the quotient of a division that overflows, and Z then, are not defined
            S.only.append(z3.Or(ok, X == 0, z3.UGE(H, X)))
            S["A"] = z3.If(ok, z3.Extract(7, 0, q), A)
            S["H"] = z3.If(ok, z3.Extract(7, 0, r), H)
            fl(C=z3.Not(ok), Z=z3.If(ok, b1(q == 0), bit(P, FZ)))
            S.care["P"] = z3.If(ok, z3.BitVecVal(0xFF, 8), z3.BitVecVal(0xFD, 8))
            S.care["A"] = z3.If(ok, z3.BitVecVal(0xFF, 8), z3.BitVecVal(0, 8))
            S.care["H"] = z3.If(ok, z3.BitVecVal(0xFF, 8), z3.BitVecVal(0, 8))
        elif op == 0x62:
            S["A"] = z3.RotateLeft(A, 4)
        elif op == 0x72:
            ln, mn = z3.Extract(3, 0, A), z3.Extract(7, 4, A)
            lowc = z3.Or(z3.UGT(ln, 9), f["H"])
            hic = z3.Or(f["C"], z3.UGT(A, 0x99))
            r = A + z3.If(lowc, z3.BitVecVal(6, 8), z3.BitVecVal(0, 8)) + z3.If(hic, z3.BitVecVal(0x60, 8), z3.BitVecVal(0, 8))
            S["A"] = r
            nz(r, C=hic)
            S.care["P"] = 0x7F                              # V is undefined
            # the manual's table: what ADD and ADC of two BCD numbers can leave
            S.only.append(z3.Or(z3.Not(f["H"]), z3.ULE(ln, 3)))
            S.only.append(z3.Or(z3.Not(f["C"]), z3.ULE(mn, 3)))
            S.only.append(z3.Or(z3.Not(f["C"]), f["H"], z3.ULE(mn, 2)))
        elif op in (0x4E, 0x5E, 0x6E, 0x7E):
            if op == 0x4E:
                v = rd(ea("dir"))
            elif op == 0x5E:
                v = rd(ea("dir"))
            elif op == 0x6E:
                v = fetch()
            else:
                v = rd(HX)
            S.wr("rom", HX if op == 0x5E else z3.ZeroExt(8, fetch()), v)
            nz(v, V=0)
            if op in (0x5E, 0x7E):
                incx()
        elif op == 0x80:
            S["P"] = pop() | 0x60
            S["A"] = pop()
            S["X"] = pop()
            S["PC"] = pop16()
        elif op == 0x81:
            S["PC"] = pop16()
        elif op == 0x83:
            push16(S["PC"])
            push(X)
            push(A)
            push(P)
            fl(I=1)
            S["PC"] = rd16(z3.BitVecVal(0xFFFC, 16))
        elif op == 0x84:
            S["P"] = A | 0x60
        elif op == 0x85:
            S["A"] = P
        elif op in (0x86, 0x88, 0x8A):
            S[{0x86: "A", 0x88: "X", 0x8A: "H"}[op]] = pop()
        elif op in (0x87, 0x89, 0x8B):
            push(S[{0x87: "A", 0x89: "X", 0x8B: "H"}[op]])
        elif op == 0x8C:
            S["H"] = 0
            nz(z3.BitVecVal(0, 8), V=0)
        elif op == 0x94:
            S["SP"] = HX - 1
        elif op == 0x95:
            hx(S["SP"] + 1)
        elif op == 0x97:
            S["X"] = A
        elif op == 0x9F:
            S["A"] = X
        elif op in (0x98, 0x99):
            fl(C=op & 1)
        elif op in (0x9A, 0x9B):
            fl(I=op & 1)
        elif op == 0x9C:
            S["SP"] = S["SP"] | 0x00FF                      # the high byte is not affected
        elif op == 0x9D:
            pass
        elif op == 0xA7:
            S["SP"] = S["SP"] + sx(fetch(), 16)
        elif op == 0xAF:
            hx(HX + sx(fetch(), 16))
        elif op == 0xAD:
            d = fetch()
            push16(S["PC"])
            S["PC"] = S["PC"] + sx(d, 16)
        elif lo == 0xC:
            S["PC"] = ea(ROW[hi])
        elif lo == 0xD:
            a = ea(ROW[hi])
            push16(S["PC"])
            S["PC"] = a
        elif hi in ROW and lo in ALU:
            alu(ALU[lo], ROW[hi])
        else:
            raise NotImplementedError(label)


class HCS08(HC08):
    name, cls = "hcs08", "cl_s08"
    args = ["-t", "HCS08"]
    hcs = True


CPUS = [HC08, HCS08]
