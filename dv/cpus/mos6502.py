"""NMOS 6502: MCS6500 programming manual (documented opcodes)."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn

N, V, B, D, I, Z, C = 7, 6, 4, 3, 2, 1, 0

ALU = {0x01: "ora", 0x21: "and", 0x41: "eor", 0x61: "adc", 0x81: "sta", 0xA1: "lda", 0xC1: "cmp", 0xE1: "sbc"}
MODE01 = {0x00: "indx", 0x04: "zp", 0x08: "imm", 0x0C: "abs", 0x10: "indy", 0x14: "zpx", 0x18: "absy", 0x1C: "absx"}
OPS = {}
for base, m in ALU.items():
    for k, md in MODE01.items():
        if not (m == "sta" and md == "imm"):
            OPS[(base & 0xE0) | 1 | k] = (m, md)
for base, m in ((0x02, "asl"), (0x22, "rol"), (0x42, "lsr"), (0x62, "ror")):
    OPS[base | 4] = (m, "zp")
    OPS[base | 8] = (m, "acc")
    OPS[base | 0xC] = (m, "abs")
    OPS[base | 0x14] = (m, "zpx")
    OPS[base | 0x1C] = (m, "absx")
for base, m in ((0xC2, "dec"), (0xE2, "inc")):
    OPS[base | 4] = (m, "zp")
    OPS[base | 0xC] = (m, "abs")
    OPS[base | 0x14] = (m, "zpx")
    OPS[base | 0x1C] = (m, "absx")
OPS.update({0x86: ("stx", "zp"), 0x8E: ("stx", "abs"), 0x96: ("stx", "zpy"), 0x84: ("sty", "zp"), 0x8C: ("sty", "abs"),
            0x94: ("sty", "zpx"), 0xA2: ("ldx", "imm"), 0xA6: ("ldx", "zp"), 0xAE: ("ldx", "abs"), 0xB6: ("ldx", "zpy"),
            0xBE: ("ldx", "absy"), 0xA0: ("ldy", "imm"), 0xA4: ("ldy", "zp"), 0xAC: ("ldy", "abs"), 0xB4: ("ldy", "zpx"),
            0xBC: ("ldy", "absx"), 0xE0: ("cpx", "imm"), 0xE4: ("cpx", "zp"), 0xEC: ("cpx", "abs"), 0xC0: ("cpy", "imm"),
            0xC4: ("cpy", "zp"), 0xCC: ("cpy", "abs"), 0x24: ("bit", "zp"), 0x2C: ("bit", "abs"),
            0x4C: ("jmp", "abs"), 0x6C: ("jmp", "ind"), 0x20: ("jsr", "abs"), 0x60: ("rts", ""), 0x40: ("rti", ""),
            0x08: ("php", ""), 0x28: ("plp", ""), 0x48: ("pha", ""), 0x68: ("pla", ""),
            0x88: ("dey", ""), 0xCA: ("dex", ""), 0xC8: ("iny", ""), 0xE8: ("inx", ""),
            0x8A: ("txa", ""), 0x98: ("tya", ""), 0xA8: ("tay", ""), 0xAA: ("tax", ""), 0xBA: ("tsx", ""), 0x9A: ("txs", ""),
            0x18: ("clc", ""), 0x38: ("sec", ""), 0x58: ("cli", ""), 0x78: ("sei", ""), 0xB8: ("clv", ""),
            0xD8: ("cld", ""), 0xF8: ("sed", ""), 0xEA: ("nop", ""), 0x00: ("brk", "")})
for op, f, v in ((0x10, N, 0), (0x30, N, 1), (0x50, V, 0), (0x70, V, 1), (0x90, C, 0), (0xB0, C, 1), (0xD0, Z, 0), (0xF0, Z, 1)):
    OPS[op] = ("br", (f, v))


READS = ("lda", "ldx", "ldy", "ora", "and", "eor", "adc", "sbc", "cmp", "cpx", "cpy", "bit")
RMWS = ("asl", "lsr", "rol", "ror", "inc", "dec", "tsb", "trb", "rmb", "smb")


def bn32(v):
    return z3.BitVecVal(v, 32) if isinstance(v, int) else v


class Mos6502(CPU):
    sim, name, cls = "mos6502", "6502", "cl_mos6502"
    includes = ["simmos6502cl.h", "mos6502cl.h"]
    cpus = "cpus_mos6502"
    args = ["-t", "6502"]
    regs = {"A": ("u->A", 8), "X": ("u->X", 8), "Y": ("u->Y", 8), "SP": ("u->SP", 8), "CC": ("u->CC", 8), "PC": ("u->PC", 16)}
    free = {"i8d": "u->i8d", "set_b": "u->set_b"}
    mems = {"rom": "u->rom"}
    entry = "cl_mos6502::exec_inst()"

    OPS = OPS
    cmos = False

    def opcodes(self):
        return [(f"{o:02x} {self.OPS[o][0]} {self.OPS[o][1]}", [o]) for o in sorted(self.OPS) if self.OPS[o][0] != "brk"]

    def cycles(self, op, m, md, CC):
        """Cycles without the page-crossing and taken-branch additions."""
        if m in READS:
            n = dict(imm=2, zp=3, zpx=4, zpy=4, abs=4, absx=4, absy=4, indx=6, indy=5, zpi=5)[md]
            if self.cmos and m in ("adc", "sbc"):
                return n + bn(tst(CC, D), 32)
            return n
        if m[:2] == "st":
            return dict(zp=3, zpx=4, zpy=4, abs=4, absx=5, absy=5, indx=6, indy=6, zpi=5)[md]
        if m in RMWS:
            return dict(acc=2, zp=5, zpx=6, abs=6, absx=6 if self.cmos and m not in ("inc", "dec") else 7)[md]
        if m == "jmp":
            return dict(abs=3, ind=6 if self.cmos else 5, indax=6)[md]
        if m in ("bbr", "bbs"):
            return None
        if m == "nops":
            return 1 if md == 0 else 2 if op & 0x1F == 2 else {0x44: 3, 0x5C: 8}.get(op, 4)
        return dict(jsr=6, rts=6, rti=6, pha=3, php=3, phx=3, phy=3, pla=4, plp=4, plx=4, ply=4).get(m, 2)

    def spec(self, S, label, ops):
        m, md = self.OPS[ops[0]]
        A, X, Y, SP, CC = S["A"], S["X"], S["Y"], S["SP"], S["CC"]
        S["PC"] = S["PC"] + 1
        S.care["CC"] = 0xCF

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def fetch16():
            lo = fetch()
            return cat(fetch(), lo)

        def rd16(a):
            return cat(S.rd("rom", a + 1), S.rd("rom", a))

        def zp16(a8):
            return cat(S.rd("rom", a8 + 1), S.rd("rom", a8))
        ea = None
        e16 = lambda v: ext(v, 16)
        if md == "imm":
            val = fetch()
        elif md == "acc":
            val = A
        elif md == "zp":
            ea = e16(fetch())
        elif md == "zpx":
            ea = e16(fetch() + X)
        elif md == "zpy":
            ea = e16(fetch() + Y)
        elif md == "abs":
            ea = fetch16()
        elif md == "absx":
            ea = fetch16() + e16(X)
        elif md == "absy":
            ea = fetch16() + e16(Y)
        elif md == "indx":
            ea = zp16(fetch() + X)
        elif md == "indy":
            ea = zp16(fetch()) + e16(Y)
        elif md == "ind":
            p = fetch16()
            if not self.cmos:
                S.only.append(z3.Extract(7, 0, p) != 0xFF)     # NMOS page-wrap quirk is outside the statement
            ea = rd16(p)
        elif md == "zpi":
            ea = zp16(fetch())
        elif md == "indax":
            ea = rd16(fetch16() + e16(X))
        base, idx = None, None
        if md in ("absx", "absy", "indy"):
            idx = e16(X if md == "absx" else Y)
            base = ea - idx
        S.ticks = self.cycles(ops[0], m, md, CC)
        if base is not None and S.ticks is not None and (m in READS or self.cmos and m in ("asl", "lsr", "rol", "ror")):
            S.ticks = S.ticks + z3.If(z3.Extract(15, 8, base) != z3.Extract(15, 8, ea), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))

        def branch(cond):
            rel = sx(fetch(), 16)
            to = S["PC"] + rel
            page = z3.Extract(15, 8, to) != z3.Extract(15, 8, S["PC"])
            if S.ticks is not None:
                S.ticks = z3.If(cond, S.ticks + 1 + z3.If(page, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), bn32(S.ticks))
            S["PC"] = z3.If(cond, to, S["PC"])
        if ea is not None and m not in ("sta", "stx", "sty", "stz", "jmp", "jsr"):
            val = S.rd("rom", ea)

        def flags(**k):
            v = S["CC"]
            bits = [bit(v, i) for i in range(8)]
            for n, x in k.items():
                i = dict(N=N, V=V, D=D, I=I, Z=Z, C=C)[n]
                bits[i] = b1(x) if isinstance(x, z3.BoolRef) else (z3.BitVecVal(x, 1) if isinstance(x, int) else x)
            S["CC"] = cat(*reversed(bits))

        def nz(v):
            flags(N=bit(v, 7), Z=v == 0)

        def push(v):
            S.wr("rom", cat(z3.BitVecVal(1, 8), S["SP"]), v)
            S["SP"] = S["SP"] - 1

        def pop():
            S["SP"] = S["SP"] + 1
            return S.rd("rom", cat(z3.BitVecVal(1, 8), S["SP"]))

        c9 = z3.ZeroExt(8, bit(CC, C))
        if m in ("lda", "ldx", "ldy"):
            S[m[2].upper()] = val
            nz(val)
        elif m in ("sta", "stx", "sty"):
            S.wr("rom", ea, S[m[2].upper()])
        elif m in ("ora", "and", "eor"):
            r = {"ora": A | val, "and": A & val, "eor": A ^ val}[m]
            S["A"] = r
            nz(r)
        elif m in ("adc", "sbc"):
            v = val if m == "adc" else ~val
            s = z3.ZeroExt(1, A) + z3.ZeroExt(1, v) + c9
            r = z3.Extract(7, 0, s)
            ov = bit((A ^ r) & (v ^ r), 7)
            # decimal mode: defined for BCD operands; A and C are documented (N, V, Z are not)
            ok = z3.And(*[z3.ULE(z3.Extract(h, l, q), z3.BitVecVal(9, 4)) for q in (A, val) for h, l in ((7, 4), (3, 0))])
            dec = tst(CC, D)
            S.only.append(z3.Implies(dec, ok))
            if m == "adc":
                lo = ext(z3.Extract(3, 0, A), 8) + ext(z3.Extract(3, 0, val), 8) + ext(bit(CC, C), 8)
                cl = z3.UGT(lo, 9)
                lo2 = z3.If(cl, lo - 10, lo)
                hi = ext(z3.Extract(7, 4, A), 8) + ext(z3.Extract(7, 4, val), 8) + bn(cl, 8)
                ch = z3.UGT(hi, 9)
                hi2 = z3.If(ch, hi - 10, hi)
                dc = b1(ch)
            else:
                lo = ext(z3.Extract(3, 0, A), 8) - ext(z3.Extract(3, 0, val), 8) - ext(~bit(CC, C), 8)
                bl = lo < 0
                lo2 = z3.If(bl, lo + 10, lo)
                hi = ext(z3.Extract(7, 4, A), 8) - ext(z3.Extract(7, 4, val), 8) - bn(bl, 8)
                bh = hi < 0
                hi2 = z3.If(bh, hi + 10, hi)
                dc = ~b1(bh)
            S["A"] = z3.If(dec, cat(z3.Extract(3, 0, hi2), z3.Extract(3, 0, lo2)), r)
            nz(S["A"] if self.cmos else r)                  # the CMOS part sets valid N and Z in decimal mode
            flags(V=ov, C=z3.If(dec, dc, bit(s, 8)))
            S.care["CC"] = z3.If(dec, z3.BitVecVal(0xCF & ~(0x40 if self.cmos else 0xC2), 8), z3.BitVecVal(0xCF, 8))
        elif m in ("cmp", "cpx", "cpy"):
            r0 = {"cmp": A, "cpx": X, "cpy": Y}[m]
            nz(r0 - val)
            flags(C=z3.UGE(r0, val))
        elif m == "bit" and md == "imm":
            flags(Z=(A & val) == 0)
        elif m == "stz":
            S.wr("rom", ea, z3.BitVecVal(0, 8))
        elif m in ("tsb", "trb"):
            flags(Z=(A & val) == 0)
            S.wr("rom", ea, val | A if m == "tsb" else val & ~A)
        elif m in ("rmb", "smb"):
            k = z3.BitVecVal(1 << (ops[0] >> 4 & 7), 8)
            S.wr("rom", ea, val | k if m == "smb" else val & ~k)
        elif m in ("bbr", "bbs"):
            branch(bit(val, ops[0] >> 4 & 7) == int(m == "bbs"))
        elif m == "bra":
            branch(z3.BoolVal(True))
        elif m in ("phx", "phy"):
            push(S[m[2].upper()])
        elif m in ("plx", "ply"):
            S[m[2].upper()] = v = pop()
            nz(v)
        elif m in ("ina", "dea"):
            S["A"] = A + (1 if m == "ina" else -1)
            nz(S["A"])
        elif m == "nops":
            S["PC"] = S["PC"] + md
        elif m == "bit":
            flags(N=bit(val, 7), V=bit(val, 6), Z=(A & val) == 0)
        elif m in ("asl", "lsr", "rol", "ror"):
            c = bit(CC, C)
            if m == "asl":
                r, co = val << 1, bit(val, 7)
            elif m == "lsr":
                r, co = z3.LShR(val, 1), bit(val, 0)
            elif m == "rol":
                r, co = cat(z3.Extract(6, 0, val), c), bit(val, 7)
            else:
                r, co = cat(c, z3.Extract(7, 1, val)), bit(val, 0)
            if md == "acc":
                S["A"] = r
            else:
                S.wr("rom", ea, r)
            nz(r)
            flags(C=co)
        elif m in ("inc", "dec"):
            r = val + 1 if m == "inc" else val - 1
            S.wr("rom", ea, r)
            nz(r)
        elif m in ("inx", "iny", "dex", "dey"):
            q = m[2].upper()
            S[q] = S[q] + (1 if m[0] == "i" else -1)
            nz(S[q])
        elif m in ("txa", "tya", "tax", "tay", "tsx", "txs"):
            nm = {"a": "A", "x": "X", "y": "Y", "s": "SP"}
            S[nm[m[2]]] = S[nm[m[1]]]
            if m != "txs":
                nz(S[nm[m[2]]])
        elif m in ("clc", "sec", "cli", "sei", "clv", "cld", "sed"):
            flags(**{m[2].upper(): int(m[0] == "s")})
        elif m == "nop":
            pass
        elif m == "jmp":
            S["PC"] = ea
        elif m == "jsr":
            ret = S["PC"] - 1
            push(z3.Extract(15, 8, ret))
            push(z3.Extract(7, 0, ret))
            S["PC"] = ea
        elif m == "rts":
            lo = pop()
            S["PC"] = cat(pop(), lo) + 1
        elif m == "rti":
            S["CC"] = pop()
            lo = pop()
            S["PC"] = cat(pop(), lo)
        elif m == "pha":
            push(A)
        elif m == "pla":
            S["A"] = pop()
            nz(S["A"])
        elif m == "php":
            push(CC | 0x30)
        elif m == "plp":
            S["CC"] = pop()
        elif m == "br":
            f, v = md
            branch(bit(CC, f) == v)
        else:
            raise NotImplementedError(m)


OPC = dict(OPS)
OPC.update({b | 0x12: (m, "zpi") for b, m in ((0, "ora"), (0x20, "and"), (0x40, "eor"), (0x60, "adc"), (0x80, "sta"), (0xA0, "lda"), (0xC0, "cmp"), (0xE0, "sbc"))})
OPC.update({0x04: ("tsb", "zp"), 0x0C: ("tsb", "abs"), 0x14: ("trb", "zp"), 0x1C: ("trb", "abs"), 0x34: ("bit", "zpx"), 0x3C: ("bit", "absx"), 0x89: ("bit", "imm"),
            0x64: ("stz", "zp"), 0x74: ("stz", "zpx"), 0x9C: ("stz", "abs"), 0x9E: ("stz", "absx"), 0x1A: ("ina", ""), 0x3A: ("dea", ""),
            0x5A: ("phy", ""), 0x7A: ("ply", ""), 0xDA: ("phx", ""), 0xFA: ("plx", ""), 0x80: ("bra", ""), 0x7C: ("jmp", "indax")})
# the reserved opcodes of the 65C02 are no-operations of a documented length (md is the number of operand bytes)
for _o in range(256):
    if _o not in OPC:
        OPC[_o] = ("nops", 2 if _o in (0x5C, 0xDC, 0xFC) else 1 if _o & 0x1F == 2 or _o in (0x44, 0x54, 0xD4, 0xF4) else 0)
OPCS = dict(OPC)
for _o in range(8):
    OPCS[_o << 4 | 7] = ("rmb", "zp")
    OPCS[_o << 4 | 0x87] = ("smb", "zp")
    OPCS[_o << 4 | 0xF] = ("bbr", "zp")
    OPCS[_o << 4 | 0x8F] = ("bbs", "zp")
del OPCS[0xCB], OPCS[0xDB]                                    # WAI and STP


class Mos65C02(Mos6502):
    name, cls, args, OPS, cmos = "65C02", "cl_mos65c02", ["-t", "65C02"], OPC, True
    includes = ["simmos6502cl.h", "mos65c02cl.h"]


class Mos65C02S(Mos65C02):
    name, cls, args, OPS = "65C02S", "cl_mos65c02s", ["-t", "65C02S"], OPCS
    includes = ["simmos6502cl.h", "mos65c02scl.h"]


CPUS = [Mos6502, Mos65C02, Mos65C02S]
