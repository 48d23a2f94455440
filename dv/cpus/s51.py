"""MCS-51 (8052): the Intel MCS-51 programmer's guide and instruction set.

The SFR ACC, B, PSW, SP, DPL, DPH and the register banks are memory: the statement is about internal
RAM, SFRs, external RAM, code memory and the PC. The parity bit of PSW is hardware following ACC (not
an effect of instructions) and is not judged here.
"""
import z3
from .. import memview
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn

ACC, B_, PSW, SP, DPL, DPH, P2 = 0xE0, 0xF0, 0xD0, 0x81, 0x82, 0x83, 0xA0
CY, AC, F0, RS1, RS0, OV = 7, 6, 5, 4, 3, 2

OPS = {}


def _fill():
    for op in range(256):
        lo, hi = op & 15, op >> 4
        if op == 0xA5:
            continue
        if lo == 1:
            OPS[op] = ("ajmp",) if not hi & 1 else ("acall",)
            continue
        if lo >= 4 and hi in (2, 3, 4, 5, 6, 9) or lo >= 4 and hi in (0, 1):
            src = ("imm",) if lo == 4 else ("dir",) if lo == 5 else ("ind", op & 1) if lo < 8 else ("rn", op & 7)
            if hi in (0, 1):
                if lo == 4:
                    src = ("acc",)
                OPS[op] = (("inc", "dec")[hi], src)
            else:
                OPS[op] = ({2: "add", 3: "addc", 4: "orl", 5: "anl", 6: "xrl", 9: "subb"}[hi], ("acc",), src)
            continue
        src = ("dir",) if lo == 5 else ("ind", op & 1) if lo in (6, 7) else ("rn", op & 7)
        if hi == 7 and lo >= 4:
            OPS[op] = ("mov", ("acc",) if lo == 4 else src, ("imm",))
        elif hi == 8 and lo >= 5:
            OPS[op] = ("movdd",) if lo == 5 else ("mov", ("dir",), src)
        elif hi == 0xA and lo >= 6:
            OPS[op] = ("mov", src, ("dir",))
        elif hi == 0xB and lo >= 4:
            OPS[op] = ("cjne", ("acc",), ("imm",)) if lo == 4 else ("cjne", ("acc",), ("dir",)) if lo == 5 else ("cjne", src, ("imm",))
        elif hi == 0xC and lo >= 5:
            OPS[op] = ("xch", src)
        elif hi == 0xD and (lo == 5 or lo >= 8):
            OPS[op] = ("djnz", src)
        elif hi == 0xD and lo in (6, 7):
            OPS[op] = ("xchd", src)
        elif hi == 0xE and lo >= 5:
            OPS[op] = ("mov", ("acc",), src)
        elif hi == 0xF and lo >= 5:
            OPS[op] = ("mov", src, ("acc",))
    OPS.update({0x00: ("nop",), 0x02: ("ljmp",), 0x12: ("lcall",), 0x22: ("ret",), 0x32: ("reti",), 0x03: ("rr",), 0x13: ("rrc",),
                0x23: ("rl",), 0x33: ("rlc",), 0x10: ("jbc",), 0x20: ("jb",), 0x30: ("jnb",), 0x40: ("jc",), 0x50: ("jnc",),
                0x60: ("jz",), 0x70: ("jnz",), 0x80: ("sjmp",), 0x73: ("jmp",), 0x83: ("movc", "pc"), 0x93: ("movc", "dptr"),
                0x84: ("div",), 0xA4: ("mul",), 0x90: ("movdptr",), 0xA3: ("incdptr",), 0x42: ("orl", ("dir",), ("acc",)),
                0x43: ("orl", ("dir",), ("imm",)), 0x52: ("anl", ("dir",), ("acc",)), 0x53: ("anl", ("dir",), ("imm",)),
                0x62: ("xrl", ("dir",), ("acc",)), 0x63: ("xrl", ("dir",), ("imm",)), 0x72: ("cbit", "or", 0), 0xA0: ("cbit", "or", 1),
                0x82: ("cbit", "and", 0), 0xB0: ("cbit", "and", 1), 0x92: ("movbc",), 0xA2: ("movcb",), 0xB2: ("cplb",),
                0xB3: ("cplc",), 0xC2: ("clrb",), 0xC3: ("clrc",), 0xD2: ("setb",), 0xD3: ("setc",), 0xC0: ("push",), 0xD0: ("pop",),
                0xC4: ("swap",), 0xD4: ("da",), 0xE4: ("clra",), 0xF4: ("cpla",), 0xE0: ("movx", "r", "dptr"), 0xF0: ("movx", "w", "dptr"),
                0xE2: ("movx", "r", "ri"), 0xE3: ("movx", "r", "ri"), 0xF2: ("movx", "w", "ri"), 0xF3: ("movx", "w", "ri")})


_fill()


def cycles(op, e):
    """Machine cycles (12 clocks each) of the programmer's guide."""
    m = e[0]
    if m in ("mul", "div"):
        return 4
    if m in ("ajmp", "acall", "ljmp", "lcall", "ret", "reti", "sjmp", "jmp", "jc", "jnc", "jz", "jnz", "jb", "jnb", "jbc", "cjne", "djnz", "movc", "movx", "movdptr",
             "incdptr", "push", "pop", "cbit", "movbc", "movdd"):
        return 2
    if m in ("orl", "anl", "xrl") and e[1:] == (("dir",), ("imm",)):
        return 2
    if m == "mov" and ("dir",) in e[1:] and ("acc",) not in e[1:]:
        return 2                       # dir,Rn  dir,@Ri  dir,#  Rn,dir  @Ri,dir
    return 1


class S51(CPU):
    sim, name, cls = "s51", "8052", "cl_51core"
    includes = ["sim51cl.h", "uc51cl.h", "interruptcl.h"]
    cpus = "cpus_51"
    args = ["-t", "8052"]
    regs = {"PC": ("u->PC", 16)}
    mems = {"rom": "u->rom", "iram": "u->iram", "sfr": "u->sfr", "xram": "u->xram"}
    free = {"was_reti": "u->interrupt->was_reti"}
    pre = '#define private public\n#define protected public\n'
    entry = "cl_51core::exec_inst()"
    assumptions = ["the register cells R0-R7 are iram[8*bank+n] with the bank selected by PSW.RS1:RS0 (the banker is the subject of C03); DPTR is SFR DPH:DPL",
                   "PSW.P is not judged (it follows ACC by hardware); SFR reads and writes have no peripheral side effect"]

    def add_views(self, M):
        ex, val = M.ex, M.img.val
        for n in self.mems:
            M.mem[n] = memview.add_as(ex, n, val["as." + n])
        sfr, iram = M.mem["sfr"], M.mem["iram"]

        def regs_alias(st, idx):
            psw = bv32(st.mem(sfr, PSW))
            return iram, z3.simplify((psw & 0x18) + (z3.BitVecVal(idx, 32) if isinstance(idx, int) else idx))

        def bits_alias(st, idx):
            i = z3.BitVecVal(idx, 32) if isinstance(idx, int) else idx
            return [(z3.ULT(i, 0x80), iram, 0x20 + z3.LShR(i, 3), i & 7), (z3.UGE(i, 0x80), sfr, i & 0xF8, i & 7)]
        memview.add_alias(ex, "regs", val["as.regs"], regs_alias, 8)
        memview.add_alias(ex, "dptr", val["as.dptr"], lambda st, i: (sfr, z3.simplify(z3.BitVecVal(DPL, 32) + i)), 2)
        memview.add_alias(ex, "bits", val["as.bits"], bits_alias, 256)

    def probes(self):
        p = super().probes()
        for n in ("regs", "dptr", "bits"):
            p["=as." + n] = f"(cl_address_space*)(u->{n})"
        return p

    def contracts(self, M, ex):
        ex.contract(r"^cl_\w+::inst_unknown\(", lambda ex, st, a: ex.havoc_ret(memview._T32, "unknown"))
        ex.contract(r"^cl_list::top\(\)$", lambda ex, st, a: 0)    # nested interrupt levels: not part of the statement

    def opcodes(self):
        return [(f"{o:02x} {OPS[o][0]}", [o]) for o in sorted(OPS)]

    def spec(self, S, label, ops):
        op = ops[0]
        e = OPS[op]
        m = e[0]
        S.ticks = cycles(op, e)
        S.mem_mask = {("sfr", PSW): 0xFE}
        S["PC"] = S["PC"] + 1

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def sf(a):
            return S.rd("sfr", z3.BitVecVal(a, 32))

        def ssf(a, v, cond=None):
            S.wr("sfr", z3.BitVecVal(a, 32), v, cond)

        def rn(n):
            return ext(sf(PSW) & 0x18, 32) + n

        def rd_dir(a):
            return z3.If(z3.ULT(a, 0x80), S.rd("iram", a), S.rd("sfr", a))

        def wr_dir(a, v):
            S.wr("iram", a, v, z3.ULT(a, 0x80))
            S.wr("sfr", a, v, z3.UGE(a, 0x80))

        class Loc:
            def __init__(self, k):
                self.k = k
                if k[0] in ("dir", "imm"):
                    self.a = fetch()
                elif k[0] == "rn":
                    self.i = rn(k[1])
                elif k[0] == "ind":
                    self.i = ext(S.rd("iram", rn(k[1])), 32)

            def rd(self):
                k = self.k[0]
                return self.a if k == "imm" else sf(ACC) if k == "acc" else rd_dir(self.a) if k == "dir" else S.rd("iram", self.i)

            def wr(self, v):
                k = self.k[0]
                if k == "acc":
                    ssf(ACC, v)
                elif k == "dir":
                    wr_dir(self.a, v)
                else:
                    S.wr("iram", self.i, v)

        def fl(**k):
            p = sf(PSW)
            b = [bit(p, i) for i in range(8)]
            for n, x in k.items():
                i = dict(C=CY, AC=AC, OV=OV)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            ssf(PSW, cat(*reversed(b)))

        def rbit(ba):
            lo = z3.ULT(ba, 0x80)
            by = z3.If(lo, S.rd("iram", 0x20 + z3.LShR(ba, 3)), S.rd("sfr", ba & 0xF8))
            return z3.Extract(0, 0, z3.LShR(by, ba & 7))

        def wbit(ba, v, cond=None):
            lo = z3.ULT(ba, 0x80)
            msk = z3.BitVecVal(1, 8) << (ba & 7)
            on = v == 1
            c = z3.BoolVal(True) if cond is None else cond
            ia, sa = 0x20 + z3.LShR(ba, 3), ba & 0xF8
            iv, sv = S.rd("iram", ia), S.rd("sfr", sa)
            S.wr("iram", ia, z3.If(on, iv | msk, iv & ~msk), z3.And(c, lo))
            S.wr("sfr", sa, z3.If(on, sv | msk, sv & ~msk), z3.And(c, z3.Not(lo)))

        def push(v):
            ssf(SP, sf(SP) + 1)
            S.wr("iram", sf(SP), v)

        def pop():
            v = S.rd("iram", sf(SP))
            ssf(SP, sf(SP) - 1)
            return v

        def br(c, rel):
            S["PC"] = z3.If(c, S["PC"] + sx(rel, 16), S["PC"]) if c is not True else S["PC"] + sx(rel, 16)
        A = sf(ACC)
        c = bit(sf(PSW), CY)
        dptr = cat(sf(DPH), sf(DPL))
        if m == "nop":
            pass
        elif m in ("ajmp", "acall"):
            lo = fetch()
            t = cat(z3.Extract(15, 11, S["PC"]), z3.BitVecVal(op >> 5, 3), lo)
            if m == "acall":
                push(z3.Extract(7, 0, S["PC"]))
                push(z3.Extract(15, 8, S["PC"]))
            S["PC"] = t
        elif m in ("ljmp", "lcall"):
            h = fetch()
            t = cat(h, fetch())
            if m == "lcall":
                push(z3.Extract(7, 0, S["PC"]))
                push(z3.Extract(15, 8, S["PC"]))
            S["PC"] = t
        elif m in ("ret", "reti"):
            h = pop()
            S["PC"] = cat(h, pop())
        elif m in ("inc", "dec"):
            l = Loc(e[1])
            l.wr(l.rd() + (1 if m == "inc" else -1))
        elif m in ("add", "addc", "subb"):
            v = Loc(e[2]).rd()
            sub = m == "subb"
            o = ~v if sub else v
            ci = z3.BitVecVal(0, 1) if m == "add" else ~c if sub else c
            r9 = z3.ZeroExt(1, A) + z3.ZeroExt(1, o) + z3.ZeroExt(8, ci)
            r5 = z3.ZeroExt(1, z3.Extract(3, 0, A)) + z3.ZeroExt(1, z3.Extract(3, 0, o)) + z3.ZeroExt(4, ci)
            r = z3.Extract(7, 0, r9)
            cy, h = bit(r9, 8), bit(r5, 4)
            if sub:
                cy, h = ~cy, ~h
            ssf(ACC, r)
            fl(C=cy, AC=h, OV=bit((A ^ r) & (o ^ r), 7))
        elif m in ("orl", "anl", "xrl"):
            l = Loc(e[1])
            v = Loc(e[2]).rd()
            x = l.rd()
            l.wr(x | v if m == "orl" else x & v if m == "anl" else x ^ v)
        elif m == "mov":
            l = Loc(e[1])
            r = Loc(e[2])
            if op == 0xE5:
                S.only.append(r.a != ACC)      # MOV A,ACC is not a valid instruction
            l.wr(r.rd())
        elif m == "movdd":
            s = fetch()
            d = fetch()
            wr_dir(d, rd_dir(s))
        elif m == "cjne":
            l = Loc(e[1])
            r = Loc(e[2]).rd()
            v = l.rd()
            rel = fetch()
            fl(C=z3.ULT(v, r))
            br(v != r, rel)
        elif m == "djnz":
            l = Loc(e[1])
            rel = fetch()
            l.wr(l.rd() - 1)
            br(l.rd() != 0, rel)
        elif m == "xch":
            l = Loc(e[1])
            v = l.rd()
            a0 = sf(ACC)
            l.wr(a0)
            ssf(ACC, v)
        elif m == "xchd":
            l = Loc(e[1])
            v = l.rd()
            l.wr(cat(z3.Extract(7, 4, v), z3.Extract(3, 0, A)))
            ssf(ACC, cat(z3.Extract(7, 4, A), z3.Extract(3, 0, v)))
        elif m == "rr":
            ssf(ACC, z3.RotateRight(A, 1))
        elif m == "rl":
            ssf(ACC, z3.RotateLeft(A, 1))
        elif m == "rrc":
            ssf(ACC, cat(c, z3.Extract(7, 1, A)))
            fl(C=bit(A, 0))
        elif m == "rlc":
            ssf(ACC, cat(z3.Extract(6, 0, A), c))
            fl(C=bit(A, 7))
        elif m in ("jb", "jnb", "jbc"):
            ba = fetch()
            rel = fetch()
            v = rbit(ba)
            if m == "jbc":
                wbit(ba, z3.BitVecVal(0, 1), v == 1)
            br(v == (0 if m == "jnb" else 1), rel)
        elif m in ("jc", "jnc"):
            br(c == (1 if m == "jc" else 0), fetch())
        elif m in ("jz", "jnz"):
            rel = fetch()
            br((A == 0) if m == "jz" else (A != 0), rel)
        elif m == "sjmp":
            br(True, fetch())
        elif m == "jmp":
            S["PC"] = dptr + ext(A, 16)
        elif m == "movc":
            ssf(ACC, S.rd("rom", (S["PC"] if e[1] == "pc" else dptr) + ext(A, 16)))
        elif m == "mul":
            p = ext(A, 16) * ext(sf(B_), 16)
            ssf(ACC, z3.Extract(7, 0, p))
            ssf(B_, z3.Extract(15, 8, p))
            fl(C=0, OV=z3.UGT(p, 0xFF))
        elif m == "div":
            b = sf(B_)
            z = b == 0
            ssf(ACC, z3.UDiv(A, b), z3.Not(z))
            ssf(B_, z3.URem(A, b), z3.Not(z))
            S.mem_mask = {**S.mem_mask, **{("sfr", r): z3.If(z, z3.BitVecVal(0, 8), z3.BitVecVal(255, 8)) for r in (ACC, B_)}}   # undefined on division by zero
            fl(C=0, OV=z)
        elif m == "movdptr":
            ssf(DPH, fetch())
            ssf(DPL, fetch())
        elif m == "incdptr":
            d = dptr + 1
            ssf(DPH, z3.Extract(15, 8, d))
            ssf(DPL, z3.Extract(7, 0, d))
        elif m == "cbit":
            v = rbit(fetch())
            if e[2]:
                v = ~v
            fl(C=(c | v) if e[1] == "or" else (c & v))
        elif m == "movbc":
            wbit(fetch(), c)
        elif m == "movcb":
            fl(C=rbit(fetch()))
        elif m in ("cplb", "clrb", "setb"):
            ba = fetch()
            wbit(ba, ~rbit(ba) if m == "cplb" else z3.BitVecVal(int(m == "setb"), 1))
        elif m in ("cplc", "clrc", "setc"):
            fl(C=~c if m == "cplc" else int(m == "setc"))
        elif m == "push":
            a = fetch()
            S.only.append(a != SP)       # whether PUSH SP stores the old or the new SP is not documented
            push(rd_dir(a))
        elif m == "pop":
            a = fetch()
            v = pop()
            wr_dir(a, v)
        elif m == "swap":
            ssf(ACC, z3.RotateLeft(A, 4))
        elif m == "da":
            lo = z3.Or(z3.UGT(z3.Extract(3, 0, A), 9), tst(sf(PSW), AC))
            t = z3.ZeroExt(1, A) + z3.If(lo, z3.BitVecVal(6, 9), z3.BitVecVal(0, 9))
            c1 = c | bit(t, 8)
            hi = z3.Or(z3.UGT(z3.Extract(7, 4, t), 9), c1 == 1)
            u = ext(z3.Extract(7, 0, t), 9) + z3.If(hi, z3.BitVecVal(0x60, 9), z3.BitVecVal(0, 9))
            ssf(ACC, z3.Extract(7, 0, u))
            fl(C=c1 | bit(u, 8))
        elif m == "clra":
            ssf(ACC, z3.BitVecVal(0, 8))
        elif m == "cpla":
            ssf(ACC, ~A)
        elif m == "movx":
            a = dptr if e[2] == "dptr" else cat(sf(P2), S.rd("iram", rn(op & 1)))
            if e[1] == "r":
                ssf(ACC, S.rd("xram", a))
            else:
                S.wr("xram", a, A)
        else:
            raise NotImplementedError(m)


def bv32(v):
    return z3.BitVecVal(v, 32) if isinstance(v, int) else ext(v, 32)


CPUS = [S51]
