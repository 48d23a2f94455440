"""Zilog Z80 CPU user manual (documented instructions; flag bits 3 and 5 are undefined)."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn, parity_even

R8 = ["B", "C", "D", "E", "H", "L", None, "A"]
RP = {"B": ("BC", 1), "C": ("BC", 0), "D": ("DE", 1), "E": ("DE", 0), "H": ("HL", 1), "L": ("HL", 0),
      "IXH": ("IX", 1), "IXL": ("IX", 0), "IYH": ("IY", 1), "IYL": ("IY", 0)}
SS = ["BC", "DE", "HL", "SP"]
FS, FZ, FH, FP, FN, FC = 7, 6, 4, 2, 1, 0
resGO, resHALT = 0, 101
NN = [None, None]


class M:
    """Instruction semantics over a Spec."""

    def __init__(self, S, cpu, idx="HL"):
        self.S, self.cpu, self.idx = S, cpu, idx
        self.d = None

    # registers
    def g(self, r):
        S = self.S
        if r in RP:
            p, h = RP[r]
            return z3.Extract(15, 8, S[p]) if h else z3.Extract(7, 0, S[p])
        return S[r]

    def s(self, r, v):
        S = self.S
        if r in RP:
            p, h = RP[r]
            S[p] = cat(v, z3.Extract(7, 0, S[p])) if h else cat(z3.Extract(15, 8, S[p]), v)
        else:
            S[r] = v

    def fetch(self):
        v = self.S.rd("rom", self.S["PC"])
        self.S["PC"] = self.S["PC"] + 1
        return v

    def fetch16(self):
        lo = self.fetch()
        return cat(self.fetch(), lo)

    def rd16(self, a):
        lo = self.S.rd("rom", a)
        return cat(self.S.rd("rom", a + 1), lo)

    def wr16(self, a, v):
        self.S.wr("rom", a, z3.Extract(7, 0, v))
        self.S.wr("rom", a + 1, z3.Extract(15, 8, v))

    def push(self, v):
        self.S["SP"] = self.S["SP"] - 2
        self.wr16(self.S["SP"], v)

    def pop(self):
        v = self.rd16(self.S["SP"])
        self.S["SP"] = self.S["SP"] + 2
        return v

    def fl(self, **k):
        F = self.S["F"]
        b = [bit(F, i) for i in range(8)]
        for n, x in k.items():
            i = dict(S=FS, Z=FZ, H=FH, P=FP, N=FN, C=FC)[n]
            b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
        self.S["F"] = cat(*reversed(b))

    def flag(self, i):
        return bit(self.S["F"], i)

    def szp(self, v, **k):
        self.fl(S=bit(v, 7), Z=v == 0, P=parity_even(v), **k)

    # memory operand: (HL) or (IX+d)
    def ea(self):
        if self.idx == "HL":
            return self.S["HL"]
        if self.d is None:
            self.d = self.fetch()
        return self.S[self.idx] + sx(self.d, 16)

    def half(self, r):
        if r in ("H", "L") and self.idx != "HL":
            return self.idx + r
        return r

    def get8(self, i):
        if i == 6:
            return self.S.rd("rom", self.ea())
        return self.g(self.half(R8[i]))

    def put8(self, i, v):
        if i == 6:
            self.S.wr("rom", self.ea(), v)
        else:
            self.s(self.half(R8[i]), v)

    def ss(self, i):
        return self.idx if i == 2 else SS[i]

    def cond(self, c):
        f = [FZ, FC, FP, FS][c >> 1]
        return self.flag(f) == (c & 1)

    # arithmetic
    def addx(self, a, b, c, sub=False):
        """8-bit a+b+c or a-b-c with all flags -> result."""
        w = a.size()
        o = ~b if sub else b
        ci = ~c if sub else c
        r = z3.ZeroExt(1, a) + z3.ZeroExt(1, o) + z3.ZeroExt(w, ci)
        res = z3.Extract(w - 1, 0, r)
        h = w - 4
        rh = z3.ZeroExt(1, z3.Extract(h - 1, 0, a)) + z3.ZeroExt(1, z3.Extract(h - 1, 0, o)) + z3.ZeroExt(h, ci)
        cy, hc = bit(r, w), bit(rh, h)
        if sub:
            cy, hc = ~cy, ~hc
        ov = bit((a ^ res) & (o ^ res), w - 1)
        return res, cy, hc, ov

    def alu(self, k, v):
        A = self.S["A"]
        z = z3.BitVecVal(0, 1)
        C = self.flag(FC)
        if k in (0, 1, 2, 3, 7):
            sub = k in (2, 3, 7)
            r, cy, h, ov = self.addx(A, v, C if k in (1, 3) else z, sub)
            self.fl(S=bit(r, 7), Z=r == 0, H=h, P=ov, N=int(sub), C=cy)
            if k != 7:
                self.S["A"] = r
        else:
            r = {4: A & v, 5: A ^ v, 6: A | v}[k]
            self.S["A"] = r
            self.szp(r, H=int(k == 4), N=0, C=0)

    def rot(self, k, v):
        C = self.flag(FC)
        if k == 0:
            r, c = cat(z3.Extract(6, 0, v), bit(v, 7)), bit(v, 7)
        elif k == 1:
            r, c = cat(bit(v, 0), z3.Extract(7, 1, v)), bit(v, 0)
        elif k == 2:
            r, c = cat(z3.Extract(6, 0, v), C), bit(v, 7)
        elif k == 3:
            r, c = cat(C, z3.Extract(7, 1, v)), bit(v, 0)
        elif k == 4:
            r, c = v << 1, bit(v, 7)
        elif k == 5:
            r, c = v >> 1, bit(v, 0)
        elif k == 6:
            r, c = (v << 1) | 1, bit(v, 7)
        else:
            r, c = z3.LShR(v, 1), bit(v, 0)
        return r, c

    # instruction groups
    def main(self, op):
        S = self.S
        x, y, z = op >> 6, (op >> 3) & 7, op & 7
        p, q = y >> 1, y & 1
        A = S["A"]
        if x == 0:
            if z == 0:
                if y == 0:
                    pass
                elif y == 1:
                    S["A"], S["aA"] = S["aA"], S["A"]
                    S["F"], S["aF"] = S["aF"], S["F"]
                elif y == 2:
                    d = sx(self.fetch(), 16)
                    b = self.g("B") - 1
                    self.s("B", b)
                    S["PC"] = z3.If(b != 0, S["PC"] + d, S["PC"])
                    self.longer(b != 0, 5)
                elif y == 3:
                    d = sx(self.fetch(), 16)
                    S["PC"] = S["PC"] + d
                else:
                    d = sx(self.fetch(), 16)
                    S["PC"] = z3.If(self.cond(y - 4), S["PC"] + d, S["PC"])
                    self.longer(self.cond(y - 4), 5)
            elif z == 1:
                if q == 0:
                    S[self.ss(p)] = self.fetch16()
                else:
                    a, b = S[self.idx], S[self.ss(p)]
                    r, cy, h, ov = self.addx(a, b, z3.BitVecVal(0, 1))
                    S[self.idx] = r
                    self.fl(H=h, N=0, C=cy)
            elif z == 2:
                if p < 2:
                    a = S[SS[p]]
                    if q == 0:
                        S.wr("rom", a, A)
                    else:
                        S["A"] = S.rd("rom", a)
                else:
                    a = self.fetch16()
                    if p == 2:
                        if q == 0:
                            self.wr16(a, S[self.idx])
                        else:
                            S[self.idx] = self.rd16(a)
                    elif q == 0:
                        S.wr("rom", a, A)
                    else:
                        S["A"] = S.rd("rom", a)
            elif z == 3:
                S[self.ss(p)] = S[self.ss(p)] + (1 if q == 0 else -1)
            elif z in (4, 5):
                v = self.get8(y)
                r = v + (1 if z == 4 else -1)
                self.put8(y, r)
                h = z3.Extract(3, 0, v) == (0xF if z == 4 else 0)
                self.fl(S=bit(r, 7), Z=r == 0, H=h, P=v == (0x7F if z == 4 else 0x80), N=int(z == 5))
            elif z == 6:
                if y == 6:
                    a = self.ea()
                    S.wr("rom", a, self.fetch())
                else:
                    self.put8(y, self.fetch())
            elif z == 7:
                if y < 4:
                    r, c = self.rot(y, A)
                    S["A"] = r
                    self.fl(H=0, N=0, C=c)
                elif y == 4:
                    n, h, c = self.flag(FN), self.flag(FH), self.flag(FC)
                    lo = z3.Extract(3, 0, A)
                    c6 = z3.Or(h == 1, z3.UGT(lo, 9))
                    c60 = z3.Or(c == 1, z3.UGT(A, 0x99))
                    corr = z3.If(c6, z3.BitVecVal(6, 8), z3.BitVecVal(0, 8)) | z3.If(c60, z3.BitVecVal(0x60, 8), z3.BitVecVal(0, 8))
                    r = z3.If(n == 1, A - corr, A + corr)
                    hh = z3.If(n == 1, z3.And(h == 1, z3.ULT(lo, 6)), z3.UGT(lo, 9))
                    S["A"] = r
                    self.szp(r, H=hh, C=b1(c60))
                elif y == 5:
                    S["A"] = ~A
                    self.fl(H=1, N=1)
                elif y == 6:
                    self.fl(H=0, N=0, C=1)
                else:
                    self.fl(H=self.flag(FC), N=0, C=~self.flag(FC))
        elif x == 1:
            if op == 0x76:
                S.ret = resHALT
            else:
                # a memory operand forces plain H/L for the other
                if 6 in (y, z):
                    if z == 6:
                        self.s(R8[y], S.rd("rom", self.ea()))
                    else:
                        S.wr("rom", self.ea(), self.g(R8[z]))
                else:
                    self.put8(y, self.get8(z))
        elif x == 2:
            self.alu(y, self.get8(z))
        else:
            if z == 0:
                c = self.cond(y)
                S.fork_if(c, lambda t: M(t, self.cpu).ret(6))
            elif z == 1:
                if q == 0:
                    v = self.pop()
                    if p == 3:
                        S["A"], S["F"] = z3.Extract(15, 8, v), z3.Extract(7, 0, v)
                    else:
                        S[self.ss(p)] = v
                elif p == 0:
                    S["PC"] = self.pop()
                elif p == 1:
                    for r in ("BC", "DE", "HL"):
                        S[r], S["a" + r] = S["a" + r], S[r]
                elif p == 2:
                    S["PC"] = S[self.idx]
                else:
                    S["SP"] = S[self.idx]
            elif z == 2:
                a = self.fetch16()
                S["PC"] = z3.If(self.cond(y), a, S["PC"])
            elif z == 3:
                if y == 0:
                    S["PC"] = self.fetch16()
                elif y == 2:
                    S.wr("outputs", self.port(self.fetch(), A), A)
                elif y == 3:
                    S["A"] = S.rd("inputs", self.port(self.fetch(), A))
                elif y == 4:
                    v = self.rd16(S["SP"])
                    self.wr16(S["SP"], S[self.idx])
                    S[self.idx] = v
                elif y == 5:
                    S["DE"], S["HL"] = S["HL"], S["DE"]
                elif y == 6:
                    S["IFF1"], S["IFF2"] = 0, 0
                else:
                    S["IFF1"], S["IFF2"] = 1, 1
            elif z == 4:
                a = self.fetch16()
                S.fork_if(self.cond(y), lambda t: M(t, self.cpu).callto(a, 7))
            elif z == 5:
                if q == 0:
                    self.push(cat(A, S["F"]) if p == 3 else S[self.ss(p)])
                else:
                    self.callto(self.fetch16())
            elif z == 6:
                self.alu(y, self.fetch())
            else:
                self.callto(z3.BitVecVal(8 * y, 16))

    def port(self, n, hi):
        return ext(n, 16)

    def longer(self, c, n):
        if self.S.ticks is not None:
            self.S.ticks = z3.If(c, z3.BitVecVal(n, 32), z3.BitVecVal(0, 32)) + self.S.ticks

    def ret(self, more=0):
        self.longer(z3.BoolVal(True), more)
        self.S["PC"] = self.pop()

    def callto(self, a, more=0):
        self.longer(z3.BoolVal(True), more)
        self.push(self.S["PC"])
        self.S["PC"] = a

    def cb(self, op):
        x, y, z = op >> 6, (op >> 3) & 7, op & 7
        S = self.S
        if self.idx != "HL":
            assert z == 6
        v = self.get8(z)
        if x == 0:
            r, c = self.rot(y, v)
            self.put8(z, r)
            self.szp(r, H=0, N=0, C=c)
        elif x == 1:
            self.fl(Z=bit(v, y) == 0, H=1, N=0)
            S.care["F"] = 0xD7 & ~0x84
        elif x == 2:
            self.put8(z, v & (0xFF ^ (1 << y)))
        else:
            self.put8(z, v | (1 << y))

    def ed(self, op):
        S = self.S
        x, y, z = op >> 6, (op >> 3) & 7, op & 7
        p, q = y >> 1, y & 1
        A = S["A"]
        C8 = self.g("C")
        if x == 1:
            if z == 0:
                v = S.rd("inputs", self.port(C8, self.g("B")))
                if y != 6:
                    self.s(R8[y], v)
                self.szp(v, H=0, N=0)
            elif z == 1:
                S.wr("outputs", self.port(C8, self.g("B")), self.g(R8[y]) if y != 6 else z3.BitVecVal(0, 8))
            elif z == 2:
                a, b, c = S["HL"], S[SS[p]], self.flag(FC)
                r, cy, h, ov = self.addx(a, b, c, sub=q == 0)
                S["HL"] = r
                self.fl(S=bit(r, 15), Z=r == 0, H=h, P=ov, N=int(q == 0), C=cy)
            elif z == 3:
                a = self.fetch16()
                if q == 0:
                    self.wr16(a, S[SS[p]])
                else:
                    S[SS[p]] = self.rd16(a)
            elif z == 4:
                r, cy, h, ov = self.addx(z3.BitVecVal(0, 8), A, z3.BitVecVal(0, 1), sub=True)
                S["A"] = r
                self.fl(S=bit(r, 7), Z=r == 0, H=h, P=ov, N=1, C=cy)
            elif z == 5:
                S["PC"] = self.pop()
                S["IFF1"] = S["IFF2"]
            elif z == 6:
                S["imode"] = {0x46: 0, 0x56: 1, 0x5E: 2}[op]
            elif op == 0x47:
                S["I"] = A
            elif op == 0x4F:
                S["R"] = A
            elif op in (0x57, 0x5F):
                v = S["I"] if op == 0x57 else S["R"]
                S["A"] = v
                self.fl(S=bit(v, 7), Z=v == 0, H=0, P=S["IFF2"], N=0)
            elif op == 0x67:
                v = S.rd("rom", S["HL"])
                S.wr("rom", S["HL"], cat(z3.Extract(3, 0, A), z3.Extract(7, 4, v)))
                r = cat(z3.Extract(7, 4, A), z3.Extract(3, 0, v))
                S["A"] = r
                self.szp(r, H=0, N=0)
            elif op == 0x6F:
                v = S.rd("rom", S["HL"])
                S.wr("rom", S["HL"], cat(z3.Extract(3, 0, v), z3.Extract(3, 0, A)))
                r = cat(z3.Extract(7, 4, A), z3.Extract(7, 4, v))
                S["A"] = r
                self.szp(r, H=0, N=0)
            else:
                return False
        elif x == 2 and z < 4 and y >= 4:
            step = -1 if y & 1 else 1
            rep = y >= 6
            again = None
            if z == 0:
                S.wr("rom", S["DE"], S.rd("rom", S["HL"]))
                S["DE"] = S["DE"] + step
                S["HL"] = S["HL"] + step
                S["BC"] = S["BC"] - 1
                self.fl(H=0, N=0, P=S["BC"] != 0)
                again = S["BC"] != 0
            elif z == 1:
                v = S.rd("rom", S["HL"])
                r, cy, h, ov = self.addx(A, v, z3.BitVecVal(0, 1), sub=True)
                S["HL"] = S["HL"] + step
                S["BC"] = S["BC"] - 1
                self.fl(S=bit(r, 7), Z=r == 0, H=h, P=S["BC"] != 0, N=1)
                again = z3.And(S["BC"] != 0, r != 0)
            elif z == 2:
                S.wr("rom", S["HL"], S.rd("inputs", self.port(C8, self.g("B"))))
                S["HL"] = S["HL"] + step
                b = self.g("B") - 1
                self.s("B", b)
                self.fl(Z=b == 0)
                S.care["F"] = 0xD7 & ~0x96
                again = b != 0
            else:
                b = self.g("B") - 1
                self.s("B", b)
                S.wr("outputs", self.port(C8, b), S.rd("rom", S["HL"]))
                S["HL"] = S["HL"] + step
                self.fl(Z=b == 0)
                S.care["F"] = 0xD7 & ~0x96
                again = b != 0
            if rep:
                S["PC"] = z3.If(again, S["PC"] - 2, S["PC"])
                self.longer(again, 5)
        else:
            return False
        return True


def t_main(op, idx=False):
    """T states (conditions not met); idx: with a DD or FD prefix, which replaces HL by an index register."""
    x, y, z = op >> 6, (op >> 3) & 7, op & 7
    p, q = y >> 1, y & 1
    if x == 0:
        if z == 0:
            t = [4, 4, 8, 12, 7, 7, 7, 7][y]
        elif z == 1:
            t = 11 if q else 10
        elif z == 2:
            t = [7, 7, 16, 13][p]
        elif z == 3:
            t = 6
        elif z in (4, 5):
            t = 11 if y == 6 else 4
        elif z == 6:
            t = 10 if y == 6 else 7
        else:
            t = 4
        if idx and y == 6 and z in (4, 5):
            return 23
        if idx and y == 6 and z == 6:
            return 19
    elif x == 1:
        t = 4 if op == 0x76 or 6 not in (y, z) else 7
        if idx and t == 7:
            return 19
    elif x == 2:
        t = 7 if z == 6 else 4
        if idx and z == 6:
            return 19
    else:
        t = {0: 5, 1: [10, 10, 10, 4, 10, 4, 10, 6][y], 2: 10, 3: [10, None, 11, 11, 19, 4, 4, 4][y], 4: 10, 5: 17 if q else 11, 6: 7, 7: 11}[z]
    return t + 4 if idx else t


def t_ed(op):
    x, y, z = op >> 6, (op >> 3) & 7, op & 7
    if x == 1:
        return [12, 12, 15, 20, 8, 14, 8, 18 if y in (4, 5) else 9][z]
    return 16


class Z80(CPU):
    sim, name, cls = "z80", "z80", "cl_z80"
    includes = ["simz80cl.h", "z80cl.h"]
    cpus = "cpus_z80"
    args = ["-t", "Z80"]
    regs = {"A": ("u->regs.raf.A", 8), "F": ("u->regs.raf.F", 8), "BC": ("u->regs.BC", 16), "DE": ("u->regs.DE", 16),
            "HL": ("u->regs.HL", 16), "IX": ("u->regs.IX", 16), "IY": ("u->regs.IY", 16), "SP": ("u->regs.SP", 16),
            "aA": ("u->regs.ralt_af.aA", 8), "aF": ("u->regs.ralt_af.aF", 8), "aBC": ("u->regs.aBC", 16), "aDE": ("u->regs.aDE", 16),
            "aHL": ("u->regs.aHL", 16), "I": ("u->regs.iv", 8), "R": ("u->regs.R", 8), "PC": ("u->PC", 16),
            "IFF1": ("u->IFF1", 1), "IFF2": ("u->IFF2", 1), "imode": ("u->imode", 32)}
    free = {"instPC": "u->instPC", "iblock": "u->iblock", "cond_true": "u->cond_true", "repeating": "u->repeating"}
    mems = {"rom": "u->rom", "inputs": "u->inputs", "outputs": "u->outputs"}
    entry = "cl_z80::exec_inst()"
    Sem = M
    r_care = 0xFF
    assumptions = ["Z80: flag bits 3 and 5 are undefined; I/O ports are identified by the low address byte; after HALT the processor reports resHALT",
                   "Z80: N, S, H and P/V after INI/IND/OUTI/OUTD (and repeats) and S, P/V after BIT are undefined in the manual; the R register after LD A,R holds the value including this instruction's refreshes"]

    def opcodes(self):
        out = []
        for o in range(256):
            if o not in (0xCB, 0xDD, 0xED, 0xFD):
                out.append((f"{o:02x}", [o]))
        for o in range(256):
            if o >> 3 != 6:
                out.append((f"cb {o:02x}", [0xCB, o]))
        for o in [0x40 + i for i in range(0x40)] + [0xA0 + i for i in (0, 1, 2, 3, 8, 9, 10, 11, 16, 17, 18, 19, 24, 25, 26, 27)]:
            z, y = o & 7, (o >> 3) & 7
            if o < 0x80 and (o in (0x70, 0x71, 0x76, 0x77, 0x7E, 0x7F, 0x4E, 0x66, 0x6E) or (z == 4 and y) or (z == 5 and y > 1)):
                continue
            out.append((f"ed {o:02x}", [0xED, o]))
        for pre in (0xDD, 0xFD):
            ok = [0x09, 0x19, 0x21, 0x22, 0x23, 0x29, 0x2A, 0x2B, 0x34, 0x35, 0x36, 0x39, 0xE1, 0xE3, 0xE5, 0xE9, 0xF9]
            ok += [0x46 + 8 * i for i in range(8) if i != 6] + [0x70 + i for i in range(8) if i != 6] + [0x86 + 8 * i for i in range(8)]
            for o in sorted(ok):
                out.append((f"{pre:02x} {o:02x}", [pre, o]))
            for o in range(6, 256, 8):
                if o >> 3 != 6:
                    out.append((f"{pre:02x} cb {o:02x}", [pre, 0xCB, None, o]))
        return out

    def cycles(self, ops):
        if ops[0] == 0xCB:
            x, y, z = ops[1] >> 6, (ops[1] >> 3) & 7, ops[1] & 7
            return 8 if z != 6 else 12 if x == 1 else 15
        if ops[0] == 0xED:
            return t_ed(ops[1])
        if ops[0] in (0xDD, 0xFD):
            if ops[1] == 0xCB:
                return 20 if ops[3] >> 6 == 1 else 23
            return t_main(ops[1], True)
        return t_main(ops[0])

    def incR(self, S, n):
        r = S["R"]
        S["R"] = cat(bit(r, 7), z3.Extract(6, 0, r) + n)

    def spec(self, S, label, ops):
        pre = ops[0]
        S.care["F"] = 0xD7
        S.ticks = self.cycles(ops)
        S["PC"] = S["PC"] + 1
        if pre in (0xCB, 0xDD, 0xED, 0xFD):
            self.incR(S, 2)
            S["PC"] = S["PC"] + 1
            if pre == 0xCB:
                self.Sem(S, self).cb(ops[1])
            elif pre == 0xED:
                if self.Sem(S, self).ed(ops[1]) is False:
                    raise NotImplementedError
            else:
                m = self.Sem(S, self, "IX" if pre == 0xDD else "IY")
                if ops[1] == 0xCB:
                    m.d = m.fetch()
                    S["PC"] = S["PC"] + 1
                    m.cb(ops[3])
                else:
                    m.main(ops[1])
        else:
            self.incR(S, 1)
            self.Sem(S, self).main(pre)


CPUS = [Z80]
