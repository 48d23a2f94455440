"""Intel 8080 and 8085: the 8080/8085 assembly language programming manual (documented flags S Z AC P CY)."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn, parity_even

FS, FZ, FA, FP, FC = 7, 6, 4, 2, 0
R8 = "B C D E H L M A".split()
RP = ("B", "C"), ("D", "E"), ("H", "L"), None


class I8080(CPU):
    sim, name, cls = "i8085", "8080", "cl_i8080"
    includes = ["simi8085cl.h", "i8080cl.h", "i8085cl.h"]
    cpus = "cpus_i8085"
    args = ["-t", "I8080"]
    regs = {r: ("u->" + e, 8) for r, e in (("A", "rpAF.r.A"), ("F", "rpAF.r.F"), ("B", "rpBC.r.B"), ("C", "rpBC.r.C"), ("D", "rpDE.r.D"),
                                           ("E", "rpDE.r.E"), ("H", "rpHL.r.H"), ("L", "rpHL.r.L"))}
    regs.update({"SP": ("u->rSP", 16), "PC": ("u->PC", 16), "IPC": ("u->instPC", 32)})
    free = {"tick_shift": "u->tick_shift"}
    mems = {"rom": "u->rom"}
    entry = "cl_i8080::exec_inst()"
    assumptions = ["cl_uc::do_inst sets instPC to PC before it calls exec_inst (the dispatch reads the condition's clock count at instPC)"]
    skip = {0x76, 0xDB, 0xD3, 0xFB, 0xF3}        # HLT, IN, OUT, EI, DI: no I/O and interrupt model

    def contracts(self, M, ex):
        ex.contract(r"^cl_i8080::stack_(write|check_overflow)\(|^cl_i8080::stack_read\(", lambda ex, st, a: 0)

    def opcodes(self):
        out = []
        for o in range(256):
            if o in self.skip or o & 0xC7 == 0 and o or o in (0xCB, 0xD9, 0xDD, 0xED, 0xFD):
                continue
            out.append((f"{o:02x}", [o]))
        return out

    # T states: (mov r,r  inr/dcr r  inx/dcx  call  ccc not taken  rcc not taken, taken  rst  pchl, sphl  push  xthl  jcc not taken)
    T = dict(mov=5, inr=5, inx=5, call=17, ccc=11, rcc=(5, 11), rst=11, pchl=5, push=11, xthl=18, jcc=10)

    def states(self, op):
        """(states, states when the condition holds): 8080/8085 assembly language programming manual."""
        T, m = self.T, op & 7 == 6 or op & 0x38 == 0x30
        if op & 0xC0 == 0x40:
            return (7 if m else T["mov"]), None
        if op & 0xC0 == 0x80:
            return (7 if op & 7 == 6 else 4), None
        if op & 0xC6 == 0x04:
            return (10 if op & 0x38 == 0x30 else T["inr"]), None
        if op & 0xC7 == 0x06:
            return (10 if op == 0x36 else 7), None
        if op & 0xC7 == 3:
            return T["inx"], None
        if op & 0xC7 == 1 and op < 0x40:
            return 10, None                            # LXI, DAD
        if op & 0xE7 == 2:
            return 7, None                             # LDAX, STAX
        if op < 0x40:
            return {0x22: 16, 0x2A: 16, 0x32: 13, 0x3A: 13}.get(op, 4), None
        if op & 0xC7 == 0xC6:
            return 7, None
        if op & 0xC7 == 0xC7:
            return T["rst"], None
        if op & 0xCF == 0xC5:
            return T["push"], None
        if op in (0xC9, 0xC3) or op & 0xCF == 0xC1:
            return 10, 10
        if op == 0xCD:
            return T["call"], T["call"]
        if op & 0xC7 == 0xC4:
            return T["ccc"], T["call"]
        if op & 0xC7 == 0xC0:
            return T["rcc"]
        if op & 0xC7 == 0xC2:
            return T["jcc"], 10
        return {0xE3: T["xthl"], 0xE9: T["pchl"], 0xF9: T["pchl"]}.get(op, 4), None

    def spec(self, S, label, ops):
        op = ops[0]
        S.care["F"] = 0xD5
        S.ticks, taken = self.states(op)
        S.only.append(S["IPC"] == ext(S["PC"], 32))            # cl_uc::do_inst sets it
        S["PC"] = S["PC"] + 1

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def fetch16():
            l = fetch()
            return cat(fetch(), l)

        def fl(**k):
            F = S["F"]
            b = [bit(F, i) for i in range(8)]
            for n, x in k.items():
                i = dict(S=FS, Z=FZ, A=FA, P=FP, C=FC)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["F"] = cat(*reversed(b))

        def szp(v, **k):
            fl(S=bit(v, 7), Z=v == 0, P=parity_even(v), **k)
        HL = cat(S["H"], S["L"])

        def g(r):
            return S.rd("rom", HL) if r == "M" else S[r]

        def s(r, v):
            if r == "M":
                S.wr("rom", HL, v)
            else:
                S[r] = v

        def g16(p):
            return S["SP"] if RP[p] is None else cat(S[RP[p][0]], S[RP[p][1]])

        def s16(p, v):
            if RP[p] is None:
                S["SP"] = v
            else:
                S[RP[p][0]] = z3.Extract(15, 8, v)
                S[RP[p][1]] = z3.Extract(7, 0, v)

        def rd16(a):
            return cat(S.rd("rom", a + 1), S.rd("rom", a))

        def push(v):
            S.wr("rom", S["SP"] - 1, z3.Extract(15, 8, v))
            S.wr("rom", S["SP"] - 2, z3.Extract(7, 0, v))
            S["SP"] = S["SP"] - 2

        def pop():
            v = rd16(S["SP"])
            S["SP"] = S["SP"] + 2
            return v
        A, C = S["A"], bit(S["F"], FC)

        def cond(i):
            f = bit(S["F"], (FZ, FC, FP, FS)[i >> 1])
            return f == (i & 1)

        def alu(k, v):
            if k in (0, 1, 2, 3, 7):
                sub = k in (2, 3, 7)
                o = ~v if sub else v
                ci = (~C if sub else C) if k in (1, 3) else z3.BitVecVal(int(sub), 1)
                r9 = z3.ZeroExt(1, A) + z3.ZeroExt(1, o) + z3.ZeroExt(8, ci)
                r5 = z3.ZeroExt(1, z3.Extract(3, 0, A)) + z3.ZeroExt(1, z3.Extract(3, 0, o)) + z3.ZeroExt(4, ci)
                r = z3.Extract(7, 0, r9)
                szp(r, A=bit(r5, 4), C=~bit(r9, 8) if sub else bit(r9, 8))
                if k != 7:
                    S["A"] = r
            else:
                r = {4: A & v, 5: A ^ v, 6: A | v}[k]
                S["A"] = r
                szp(r, C=0, A=0)
                if k == 4:
                    S.care["F"] = 0xC5          # AC differs between the processors of the family
        if op == 0:
            pass
        elif op & 0xC0 == 0x40:
            s(R8[op >> 3 & 7], g(R8[op & 7]))
        elif op & 0xC0 == 0x80:
            alu(op >> 3 & 7, g(R8[op & 7]))
        elif op & 0xC7 == 0xC6:
            alu(op >> 3 & 7, fetch())
        elif op & 0xC7 == 0x06:
            s(R8[op >> 3], fetch())
        elif op & 0xCF == 0x01:
            s16(op >> 4, fetch16())
        elif op & 0xC7 == 0x04:
            r = g(R8[op >> 3]) + 1
            s(R8[op >> 3], r)
            szp(r, A=z3.Extract(3, 0, r) == 0)
        elif op & 0xC7 == 0x05:
            r = g(R8[op >> 3]) - 1
            s(R8[op >> 3], r)
            szp(r, A=z3.Extract(3, 0, r) != 15)
        elif op & 0xCF == 0x03:
            s16(op >> 4, g16(op >> 4) + 1)
        elif op & 0xCF == 0x0B:
            s16(op >> 4, g16(op >> 4) - 1)
        elif op & 0xCF == 0x09:
            r = z3.ZeroExt(1, HL) + z3.ZeroExt(1, g16(op >> 4))
            s16(2, z3.Extract(15, 0, r))
            fl(C=bit(r, 16))
        elif op in (0x02, 0x12):
            S.wr("rom", g16(op >> 4), A)
        elif op in (0x0A, 0x1A):
            S["A"] = S.rd("rom", g16(op >> 4))
        elif op == 0x22:
            a = fetch16()
            S.wr("rom", a, S["L"])
            S.wr("rom", a + 1, S["H"])
        elif op == 0x2A:
            a = fetch16()
            v = rd16(a)
            s16(2, v)
        elif op == 0x32:
            S.wr("rom", fetch16(), A)
        elif op == 0x3A:
            S["A"] = S.rd("rom", fetch16())
        elif op == 0x07:
            S["A"] = z3.RotateLeft(A, 1)
            fl(C=bit(A, 7))
        elif op == 0x0F:
            S["A"] = z3.RotateRight(A, 1)
            fl(C=bit(A, 0))
        elif op == 0x17:
            S["A"] = cat(z3.Extract(6, 0, A), C)
            fl(C=bit(A, 7))
        elif op == 0x1F:
            S["A"] = cat(C, z3.Extract(7, 1, A))
            fl(C=bit(A, 0))
        elif op == 0x27:
            lo = z3.Or(z3.UGT(z3.Extract(3, 0, A), 9), tst(S["F"], FA))
            t = z3.ZeroExt(1, A) + z3.If(lo, z3.BitVecVal(6, 9), z3.BitVecVal(0, 9))
            hi = z3.Or(z3.UGT(z3.Extract(8, 4, t), 9), C == 1)
            u = t + z3.If(hi, z3.BitVecVal(0x60, 9), z3.BitVecVal(0, 9))
            r = z3.Extract(7, 0, u)
            S["A"] = r
            szp(r, C=hi, A=z3.And(lo, z3.UGT(z3.Extract(3, 0, A), 9)))
        elif op == 0x2F:
            S["A"] = ~A
        elif op == 0x37:
            fl(C=1)
        elif op == 0x3F:
            fl(C=~C)
        elif op == 0xEB:
            S["D"], S["E"], S["H"], S["L"] = S["H"], S["L"], S["D"], S["E"]
        elif op == 0xE3:
            v = rd16(S["SP"])
            S.wr("rom", S["SP"], S["L"])
            S.wr("rom", S["SP"] + 1, S["H"])
            s16(2, v)
        elif op == 0xF9:
            S["SP"] = HL
        elif op == 0xE9:
            S["PC"] = HL
        elif op & 0xCF == 0xC5:
            push(cat(A, S["F"]) if op == 0xF5 else g16(op >> 4 & 3))
            if op == 0xF5:
                S.mem_mask_at = S["SP"]
                S.mem_mask = {("rom", ext(S["SP"], 32)): 0xD5}
        elif op & 0xCF == 0xC1:
            v = pop()
            if op == 0xF1:
                S["A"], S["F"] = z3.Extract(15, 8, v), z3.Extract(7, 0, v)
            else:
                s16(op >> 4 & 3, v)
        elif op in (0xC3,) or op & 0xC7 == 0xC2:
            a = fetch16()
            S["PC"] = a if op == 0xC3 else z3.If(cond(op >> 3 & 7), a, S["PC"])
            if op != 0xC3:
                S.ticks = z3.If(cond(op >> 3 & 7), z3.BitVecVal(taken, 32), z3.BitVecVal(S.ticks, 32))
        elif op == 0xCD or op & 0xC7 == 0xC4:
            a = fetch16()

            def call(S):
                pc = S["PC"]
                S.wr("rom", S["SP"] - 1, z3.Extract(15, 8, pc))
                S.wr("rom", S["SP"] - 2, z3.Extract(7, 0, pc))
                S["SP"] = S["SP"] - 2
                S["PC"] = a
                S.ticks = taken
            if op == 0xCD:
                call(S)
            else:
                S.fork_if(cond(op >> 3 & 7), call)
        elif op == 0xC9 or op & 0xC7 == 0xC0:
            def ret(S):
                S["PC"] = cat(S.rd("rom", S["SP"] + 1), S.rd("rom", S["SP"]))
                S["SP"] = S["SP"] + 2
                S.ticks = taken
            if op == 0xC9:
                ret(S)
            else:
                S.fork_if(cond(op >> 3 & 7), ret)
        elif op & 0xC7 == 0xC7:
            push(S["PC"])
            S["PC"] = z3.BitVecVal(op & 0x38, 16)
        else:
            raise NotImplementedError(hex(op))


class I8085(I8080):
    name, cls = "8085", "cl_i8085"
    args = ["-t", "I8085"]
    T = dict(mov=4, inr=4, inx=6, call=18, ccc=9, rcc=(6, 12), rst=12, pchl=6, push=12, xthl=16, jcc=7)


CPUS = [I8080, I8085]
