"""The Z80's relatives: Zilog Z180 (UM0050), eZ80 in Z80 mode (UM0077), ASCII R800, and the Z80N (z80n.txt beside the code)."""
import z3
from ..isa import sx, cat, bit
from .z80 import Z80, M, R8, RP, FS, FZ, FH, FP, FN, FC

HALVES = [0x24, 0x25, 0x26, 0x2C, 0x2D, 0x2E] + [0x40 + 8 * y + z for y in range(8) for z in range(8) if (y in (4, 5) or z in (4, 5)) and 6 not in (y, z)] + \
    [0x80 + 8 * y + z for y in range(8) for z in (4, 5)]


class Base(Z80):
    judge_ticks = False
    extra = {}            # ED code -> method
    halves = False
    tst = False

    def opcodes(self):
        out = [o for o in super().opcodes() if not (o[1][0] == 0xED and o[1][1] in self.extra)]
        for o in sorted(self.extra):
            out.append((f"ed {o:02x}", [0xED, o]))
        for p in (0xDD, 0xFD):
            for o in sorted(HALVES if self.halves else ()):
                out.append((f"{p:02x} {o:02x}", [p, o]))
            for o in sorted(self.idxld):
                out.append((f"{p:02x} {o:02x}", [p, o]))
        return out
    idxld = {}

    def spec(self, S, label, ops):
        S.ed_ops = ops
        if ops[0] == 0xED and ops[1] in self.extra:
            S.care["F"] = 0xD7
            S["PC"] = S["PC"] + 2
            self.incR(S, 2)
            getattr(self, self.extra[ops[1]])(S, self.Sem(S, self), ops[1])
            S.ticks = None
            return
        if ops[0] in (0xDD, 0xFD) and ops[1] in self.idxld:
            S["PC"] = S["PC"] + 2
            self.incR(S, 2)
            I, O = ("IX", "IY") if ops[0] == 0xDD else ("IY", "IX")
            m = self.Sem(S, self, I)
            a = m.ea()
            r, st = self.idxld[ops[1]]
            r = {"I": I, "O": O}.get(r, r)
            if st:
                m.wr16(a, S[r])
            else:
                S[r] = m.rd16(a)
            S.ticks = None
            return
        super().spec(S, label, ops)
        if not self.judge_ticks:
            S.ticks = None

    def in0(self, S, m, op):
        y = (op >> 3) & 7
        v = S.rd("inputs", z3.ZeroExt(8, m.fetch()))
        if y != 6:
            m.s(R8[y], v)
        m.szp(v, H=0, N=0)

    def out0(self, S, m, op):
        n = m.fetch()
        S.wr("outputs", z3.ZeroExt(8, n), m.g(R8[(op >> 3) & 7]))

    def tst(self, S, m, op):
        v = m.fetch() if op in (0x64, 0x27) else m.get8((op >> 3) & 7)
        r = S["A"] & v
        m.szp(r, H=1, N=0, C=0)

    def mlt(self, S, m, op):
        r = ["BC", "DE", "HL", "SP"][(op >> 4) & 3]
        v = S[r]
        S[r] = z3.ZeroExt(8, z3.Extract(15, 8, v)) * z3.ZeroExt(8, z3.Extract(7, 0, v))


TST = {**{0x04 + 8 * y: "tst" for y in range(8)}, 0x64: "tst"}
INOUT0 = {**{8 * y: "in0" for y in range(8) if y != 6}, **{1 + 8 * y: "out0" for y in range(8) if y != 6}}
MLT = {0x4C + 16 * p: "mlt" for p in range(4)}


class Z180(Base):
    name, cls, args = "z180", "cl_z80", ["-t", "Z180"]
    extra = {**TST, **INOUT0, 0x30: "in0", **MLT}


class EZ80(Base):
    name, cls, args = "ez80", "cl_ez80", ["-t", "EZ80"]
    includes = ["simz80cl.h", "ez80cl.h"]
    entry = "cl_ez80::exec_inst()"
    halves = True
    LEA = {0x32: ("IX", "IX"), 0x55: ("IY", "IX"), 0x54: ("IX", "IY"), 0x33: ("IY", "IY"), 0x02: ("BC", "IX"), 0x12: ("DE", "IX"), 0x22: ("HL", "IX"),
           0x03: ("BC", "IY"), 0x13: ("DE", "IY"), 0x23: ("HL", "IY")}
    LD = {0x0F: ("BC", 1), 0x1F: ("DE", 1), 0x2F: ("HL", 1), 0x07: ("BC", 0), 0x17: ("DE", 0), 0x27: ("HL", 0), 0x37: ("IX", 0), 0x31: ("IY", 0)}
    extra = {**TST, **INOUT0, **MLT, **{o: "lea" for o in LEA}, **{o: "ldhl" for o in LD}, 0x65: "pea", 0x66: "pea"}
    idxld = {0x0F: ("BC", 1), 0x1F: ("DE", 1), 0x2F: ("HL", 1), 0x07: ("BC", 0), 0x17: ("DE", 0), 0x27: ("HL", 0),
             0x37: ("I", 0), 0x31: ("O", 0), 0x3F: ("I", 1), 0x3E: ("O", 1)}

    def lea(self, S, m, op):
        d, s = self.LEA[op]
        S[d] = S[s] + sx(m.fetch(), 16)

    def pea(self, S, m, op):
        m.push(S["IX" if op == 0x65 else "IY"] + sx(m.fetch(), 16))

    def ldhl(self, S, m, op):
        r, st = self.LD[op]
        if st:
            m.wr16(S["HL"], S[r])
        else:
            S[r] = m.rd16(S["HL"])


class R800(EZ80):
    name, cls, args = "r800", "cl_r800", ["-t", "R800"]
    includes = ["simz80cl.h", "r800cl.h"]
    entry = "cl_ez80::exec_inst()"
    extra = {**{0xC1 + 8 * y: "mulub" for y in range(8) if y != 6}, **{0xC3 + 16 * p: "muluw" for p in range(4)}}
    idxld = {}

    def mulub(self, S, m, op):
        r = z3.ZeroExt(8, S["A"]) * z3.ZeroExt(8, m.g(R8[(op >> 3) & 7]))
        S["HL"] = r
        m.fl(S=0, Z=r == 0, P=0, C=z3.Extract(15, 8, r) != 0)

    def muluw(self, S, m, op):
        r = z3.ZeroExt(16, S["HL"]) * z3.ZeroExt(16, S[["BC", "DE", "HL", "SP"][(op >> 4) & 3]])
        S["DE"], S["HL"] = z3.Extract(31, 16, r), z3.Extract(15, 0, r)
        m.fl(S=0, Z=r == 0, P=0, C=z3.Extract(31, 16, r) != 0)


class MN(M):
    def port(self, n, hi):
        # the register indirect forms put BC on the address bus
        o = self.S.ed_ops
        return cat(hi, n) if o[0] == 0xED else super().port(n, hi)


class Z80N(Base):
    name, cls, args = "z80n", "cl_z80", ["-t", "Z80N"]
    Sem = MN
    judge_ticks = True
    extra = {0x23: "swap", 0x24: "mirror", 0x27: "tst", 0x28: "shift", 0x29: "shift", 0x2A: "shift", 0x2B: "shift", 0x2C: "shift", 0x30: "mul",
             0x31: "adda", 0x32: "adda", 0x33: "adda", 0x34: "addn", 0x35: "addn", 0x36: "addn", 0x8A: "pushn", 0x90: "outinb", 0x91: "nextreg", 0x92: "nextreg",
             0x93: "pixeldn", 0x94: "pixelad", 0x95: "setae", 0x98: "jpc", 0xA4: "ldix", 0xA5: "ldws", 0xAC: "ldix"}
    assumptions = Z80.assumptions + ["Z80N: flags after OUTINB, LDIX and LDDX are not judged; the repeating LDIRX, LDDRX and LDPIRX are outside"]

    def swap(self, S, m, op):
        S["A"] = z3.RotateLeft(S["A"], 4)

    def mirror(self, S, m, op):
        S["A"] = cat(*[bit(S["A"], i) for i in range(8)])

    def shift(self, S, m, op):
        de = S["DE"]
        n = z3.ZeroExt(11, z3.Extract(4, 0, m.g("B")))
        if op == 0x2C:
            S["DE"] = z3.RotateLeft(de, n & 15)
        else:
            S["DE"] = {0x28: lambda: de << n, 0x29: lambda: de >> n, 0x2A: lambda: z3.LShR(de, n), 0x2B: lambda: ~z3.LShR(~de, n)}[op]()

    def mul(self, S, m, op):
        de = S["DE"]
        S["DE"] = z3.ZeroExt(8, z3.Extract(15, 8, de)) * z3.ZeroExt(8, z3.Extract(7, 0, de))

    def adda(self, S, m, op):
        r = ["HL", "DE", "BC"][op - 0x31]
        S[r] = S[r] + z3.ZeroExt(8, S["A"])

    def addn(self, S, m, op):
        r = ["HL", "DE", "BC"][op - 0x34]
        S[r] = S[r] + m.fetch16()

    def pushn(self, S, m, op):
        h = m.fetch()
        m.push(cat(h, m.fetch()))

    def outinb(self, S, m, op):
        S.wr("outputs", S["BC"], S.rd("rom", S["HL"]))
        S["HL"] = S["HL"] + 1
        S.care["F"] = 0

    def nextreg(self, S, m, op):
        S.wr("outputs", z3.BitVecVal(0x243B, 16), m.fetch())
        S.wr("outputs", z3.BitVecVal(0x253B, 16), m.fetch() if op == 0x91 else S["A"])

    def pixeldn(self, S, m, op):
        hl = S["HL"]
        S["HL"] = z3.If(hl & 0x0700 != 0x0700, hl + 0x100, z3.If(hl & 0xE0 != 0xE0, (hl & 0xF8FF) + 0x20, (hl & 0xF81F) + 0x0800))

    def pixelad(self, S, m, op):
        y, x = m.g("D"), m.g("E")
        S["HL"] = cat(z3.BitVecVal(2, 3), z3.Extract(7, 6, y), z3.Extract(2, 0, y), z3.Extract(5, 3, y), z3.Extract(7, 3, x))

    def setae(self, S, m, op):
        S["A"] = z3.LShR(z3.BitVecVal(0x80, 8), m.g("E") & 7)

    def jpc(self, S, m, op):
        v = S.rd("inputs", S["BC"])
        S["PC"] = cat(z3.Extract(15, 14, S["PC"]), v, z3.BitVecVal(0, 6))

    def ldix(self, S, m, op):
        v = S.rd("rom", S["HL"])
        S.wr("rom", S["DE"], v, v != S["A"])
        S["DE"] = S["DE"] + 1
        S["HL"] = S["HL"] + (1 if op == 0xA4 else -1)
        S["BC"] = S["BC"] - 1
        S.care["F"] = 0

    def ldws(self, S, m, op):
        S.wr("rom", S["DE"], S.rd("rom", S["HL"]))
        m.s("L", m.g("L") + 1)
        d = m.g("D")
        r = d + 1
        m.s("D", r)
        m.fl(S=bit(r, 7), Z=r == 0, H=z3.Extract(3, 0, d) == 0xF, P=d == 0x7F, N=0)


CPUS = [Z180, Z80N, EZ80, R800]
