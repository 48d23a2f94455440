"""LR35902 (Game Boy CPU): flags Z N H C in the high half of F, no IX, IY, no shadow registers, no ports."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn
from . import z80
from .z80 import R8, resHALT

SS = ["BC", "DE", "HL", "SP"]
BITS = dict(Z=7, N=6, H=5, C=4)
NONE = {0xD3, 0xDB, 0xDD, 0xE3, 0xE4, 0xEB, 0xEC, 0xED, 0xF4, 0xFC, 0xFD}     # no such instruction


class M(z80.M):
    def fl(self, **k):
        k.pop("S", None), k.pop("P", None)
        F = self.S["F"]
        b = [bit(F, i) for i in range(8)]
        for n, x in k.items():
            b[BITS[n]] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
        self.S["F"] = cat(*reversed(b))

    def flag(self, i):
        return bit(self.S["F"], {z80.FZ: 7, z80.FN: 6, z80.FH: 5, z80.FC: 4}[i])

    def cond(self, c):
        return self.flag(z80.FZ if c < 2 else z80.FC) == (c & 1)

    def spd(self):
        """SP plus a signed byte; H and C are those of the low byte addition."""
        S = self.S
        d = self.fetch()
        lo = z3.Extract(7, 0, S["SP"])
        h = z3.ZeroExt(1, z3.Extract(3, 0, lo)) + z3.ZeroExt(1, z3.Extract(3, 0, d))
        c = z3.ZeroExt(1, lo) + z3.ZeroExt(1, d)
        self.fl(Z=0, N=0, H=bit(h, 4), C=bit(c, 8))
        return S["SP"] + sx(d, 16)

    def main(self, op):
        S = self.S
        A = S["A"]
        if op in (0x07, 0x0F, 0x17, 0x1F):
            r, c = self.rot(op >> 3, A)
            S["A"] = r
            self.fl(Z=0, N=0, H=0, C=c)
        elif op == 0x08:
            self.wr16(self.fetch16(), S["SP"])
        elif op == 0x10:
            S.ret = resHALT
        elif op in (0x22, 0x32):
            S.wr("rom", S["HL"], A)
            S["HL"] = S["HL"] + (1 if op == 0x22 else -1)
        elif op in (0x2A, 0x3A):
            S["A"] = S.rd("rom", S["HL"])
            S["HL"] = S["HL"] + (1 if op == 0x2A else -1)
        elif op == 0x27:
            n, h, c = (self.flag(i) == 1 for i in (z80.FN, z80.FH, z80.FC))
            c6 = z3.Or(h, z3.And(z3.Not(n), z3.UGT(z3.Extract(3, 0, A), 9)))
            c60 = z3.Or(c, z3.And(z3.Not(n), z3.UGT(A, 0x99)))
            k = z3.If(c6, z3.BitVecVal(6, 8), z3.BitVecVal(0, 8)) | z3.If(c60, z3.BitVecVal(0x60, 8), z3.BitVecVal(0, 8))
            S["A"] = z3.If(n, A - k, A + k)
            self.fl(Z=S["A"] == 0, H=0, C=c60)
        elif op == 0x3F:
            self.fl(N=0, H=0, C=~self.flag(z80.FC))
        elif op in (0xE0, 0xF0, 0xE2, 0xF2):
            a = cat(z3.BitVecVal(0xFF, 8), self.fetch() if op & 2 == 0 else self.g("C"))
            if op < 0xF0:
                S.wr("rom", a, A)
            else:
                S["A"] = S.rd("rom", a)
        elif op in (0xEA, 0xFA):
            a = self.fetch16()
            if op == 0xEA:
                S.wr("rom", a, A)
            else:
                S["A"] = S.rd("rom", a)
        elif op == 0xE8:
            S["SP"] = self.spd()
        elif op == 0xF8:
            S["HL"] = self.spd()
        elif op == 0xD9:
            S["PC"] = self.pop()
            S["IFF1"], S["IFF2"] = 1, 1
        elif op == 0xF1:
            v = self.pop()
            S["A"], S["F"] = z3.Extract(15, 8, v), z3.Extract(7, 0, v) & 0xF0
        elif op & 0xE7 == 0xC0 or op & 0xE7 == 0xC4:
            c = self.cond((op >> 3) & 3)
            if op & 4:
                a = self.fetch16()
                S.fork_if(c, lambda t: M(t, self.cpu).callto(a, 12))
            else:
                S.fork_if(c, lambda t: M(t, self.cpu).ret(12))
        elif op & 0xE7 == 0xC2:
            a = self.fetch16()
            c = self.cond((op >> 3) & 3)
            S["PC"] = z3.If(c, a, S["PC"])
            self.longer(c, 4)
        elif op & 0xE7 == 0x20:
            d = sx(self.fetch(), 16)
            c = self.cond((op >> 3) & 3)
            S["PC"] = z3.If(c, S["PC"] + d, S["PC"])
            self.longer(c, 4)
        else:
            super().main(op)

    def cb(self, op):
        if op >> 3 == 6:
            v = self.get8(op & 7)
            r = cat(z3.Extract(3, 0, v), z3.Extract(7, 4, v))
            self.put8(op & 7, r)
            self.fl(Z=r == 0, N=0, H=0, C=0)
        else:
            super().cb(op)
            self.S.care.pop("F", None)


def cycles(op):
    """Clock cycles, conditions not met."""
    x, y, z = op >> 6, (op >> 3) & 7, op & 7
    m = z == 6
    if x == 0:
        return {0: [4, 20, 4, 12, 8, 8, 8, 8][y], 1: 8 if y & 1 else 12, 2: 8, 3: 8, 4: 12 if y == 6 else 4, 5: 12 if y == 6 else 4,
                6: 12 if y == 6 else 8, 7: 4}[z]
    if x == 1:
        return 4 if op == 0x76 or 6 not in (y, z) else 8
    if x == 2:
        return 8 if m else 4
    return {0xE0: 12, 0xF0: 12, 0xE2: 8, 0xF2: 8, 0xE8: 16, 0xF8: 12, 0xEA: 16, 0xFA: 16, 0xD9: 16, 0xC9: 16, 0xE9: 4, 0xF9: 8, 0xC3: 16, 0xCD: 24,
            0xF3: 4, 0xFB: 4}.get(op) or {0: 8, 1: 12, 2: 12, 4: 12, 5: 16, 6: 8, 7: 16}[z]


class GB80(z80.Z80):
    name, cls = "gb80", "cl_gb80"
    includes = ["simz80cl.h", "z80cl.h", "gb80cl.h"]
    args = ["-t", "GB80"]
    regs = {k: v for k, v in z80.Z80.regs.items() if k in ("A", "F", "BC", "DE", "HL", "SP", "PC", "IFF1", "IFF2")}
    free = dict(z80.Z80.free, R="u->regs.R", aF="u->regs.ralt_af.aF")
    mems = {"rom": "u->rom"}
    entry = "cl_gb80::exec_inst()"
    Sem = M
    assumptions = ["GB80: the low half of F is 0 (every instruction leaves it so); EI takes effect at once; STOP and HALT make the processor report resHALT"]

    def opcodes(self):
        return [(f"{o:02x}", [o]) for o in range(256) if o != 0xCB and o not in NONE] + [(f"cb {o:02x}", [0xCB, o]) for o in range(256)]

    def spec(self, S, label, ops):
        S.only.append(z3.Extract(3, 0, S["F"]) == 0)
        S["PC"] = S["PC"] + 1
        m = M(S, self)
        if ops[0] == 0xCB:
            S["PC"] = S["PC"] + 1
            S.ticks = 8 if ops[1] & 7 != 6 else 12 if ops[1] >> 6 == 1 else 16
            m.cb(ops[1])
        else:
            S.ticks = cycles(ops[0])
            m.main(ops[0])


CPUS = [GB80]
