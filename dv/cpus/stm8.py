"""STM8: PM0044 programming manual."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn

FC, FZ, FN, FI0, FH, FI1, FV = 0, 1, 2, 3, 4, 5, 7
MEMSZ = 0x28000
SP_LIMIT, SP_TOP = 0x14FF, 0x17FF
ALU = {0: "sub", 1: "cp", 2: "sbc", 4: "and", 5: "bcp", 8: "xor", 9: "adc", 0xA: "or", 0xB: "add"}
RMW = {0: "neg", 3: "cpl", 4: "srl", 6: "rrc", 7: "sra", 8: "sll", 9: "rlc", 0xA: "dec", 0xC: "inc", 0xD: "tnz", 0xE: "swap", 0xF: "clr"}
# effective address modes of the upper half by (prefix, high nibble)
EA = {(0, 0xB): "short", (0, 0xC): "long", (0, 0xD): "long,X", (0, 0xE): "short,X", (0, 0xF): "0,X", (0, 1): "short,SP",
      (0x90, 0xD): "long,Y", (0x90, 0xE): "short,Y", (0x90, 0xF): "0,Y", (0x72, 0xC): "[long]", (0x72, 0xD): "[long],X",
      (0x92, 0xC): "[short]", (0x92, 0xD): "[short],X", (0x91, 0xD): "[short],Y"}
# of the read-modify-write rows
RM = {(0, 0): "short,SP", (0, 3): "short", (0, 6): "short,X", (0, 7): "0,X", (0x72, 3): "[long]", (0x72, 4): "long,X", (0x72, 5): "long",
      (0x72, 6): "[long],X", (0x92, 3): "[short]", (0x92, 6): "[short],X", (0x90, 4): "long,Y", (0x90, 6): "short,Y", (0x90, 7): "0,Y",
      (0x91, 6): "[short],Y"}
OPS = {}


def _fill():
    def put(p, op, *e):
        OPS[(p, op)] = e
    for lo, m in ALU.items():
        put(0, 0xA0 | lo, "alu", m, "imm")
        for (p, hi), md in EA.items():
            put(p, hi << 4 | lo, "alu", m, md)
    for (p, hi), md in EA.items():
        if md != "short,SP":
            put(p, hi << 4 | 6, "lda", md)
            put(p, hi << 4 | 7, "sta", md)
            if md != "short":
                put(p, hi << 4 | 0xC, "jp", md)
                put(p, hi << 4 | 0xD, "call", md)
    put(0, 0xA6, "lda", "imm")
    put(0, 0x7B, "lda", "short,SP")
    put(0, 0x6B, "sta", "short,SP")
    for lo, m in RMW.items():
        put(0, 0x40 | lo, "rmwA", m)
        put(0, 0x50 | lo, "rmwW", m, "X")
        put(0x90, 0x50 | lo, "rmwW", m, "Y")
        for (p, hi), md in RM.items():
            put(p, hi << 4 | lo, "rmw", m, md)
    # 16-bit loads
    for op, md in ((0xAE, "imm"), (0xBE, "short"), (0xCE, "long"), (0xDE, "long,X"), (0xEE, "short,X"), (0xFE, "0,X"), (0x1E, "short,SP")):
        put(0, op, "ldw", "X", md)
    for p, op, md in ((0x92, 0xCE, "[short]"), (0x72, 0xCE, "[long]"), (0x92, 0xDE, "[short],X"), (0x72, 0xDE, "[long],X")):
        put(p, op, "ldw", "X", md)
    for p, op, md in ((0x90, 0xAE, "imm"), (0x90, 0xBE, "short"), (0x90, 0xCE, "long"), (0x90, 0xDE, "long,Y"), (0x90, 0xEE, "short,Y"),
                      (0x90, 0xFE, "0,Y"), (0, 0x16, "short,SP"), (0x91, 0xCE, "[short]"), (0x91, 0xDE, "[short],Y")):
        put(p, op, "ldw", "Y", md)
    for p, op, r, md in ((0, 0xBF, "X", "short"), (0, 0xCF, "X", "long"), (0, 0xFF, "Y", "0,X"), (0, 0xEF, "Y", "short,X"), (0, 0xDF, "Y", "long,X"),
                         (0, 0x1F, "X", "short,SP"), (0x92, 0xCF, "X", "[short]"), (0x72, 0xCF, "X", "[long]"), (0x92, 0xDF, "Y", "[short],X"),
                         (0x72, 0xDF, "Y", "[long],X"), (0x90, 0xBF, "Y", "short"), (0x90, 0xCF, "Y", "long"), (0x90, 0xFF, "X", "0,Y"),
                         (0x90, 0xEF, "X", "short,Y"), (0x90, 0xDF, "X", "long,Y"), (0, 0x17, "Y", "short,SP"), (0x91, 0xCF, "Y", "[short]"),
                         (0x91, 0xDF, "X", "[short],Y")):
        put(p, op, "stw", r, md)
    for p, op, r, md in ((0, 0xA3, "X", "imm"), (0, 0xB3, "X", "short"), (0, 0xC3, "X", "long"), (0, 0x13, "X", "short,SP"), (0, 0xF3, "Y", "0,X"),
                         (0, 0xE3, "Y", "short,X"), (0, 0xD3, "Y", "long,X"), (0x90, 0xA3, "Y", "imm"), (0x90, 0xB3, "Y", "short"),
                         (0x90, 0xC3, "Y", "long"), (0x90, 0xF3, "X", "0,Y"), (0x90, 0xE3, "X", "short,Y"), (0x90, 0xD3, "X", "long,Y"),
                         (0x91, 0xC3, "Y", "[short]"), (0x91, 0xD3, "X", "[short],Y"), (0x92, 0xC3, "X", "[short]"), (0x92, 0xD3, "Y", "[short],X"),
                         (0x72, 0xC3, "X", "[long]"), (0x72, 0xD3, "Y", "[long],X")):
        put(p, op, "cpw", r, md)
    for p, op, m, r, md in ((0, 0x1C, "add", "X", "imm"), (0x72, 0xBB, "add", "X", "long"), (0x72, 0xFB, "add", "X", "short,SP"),
                            (0x72, 0xA9, "add", "Y", "imm"), (0x72, 0xB9, "add", "Y", "long"), (0x72, 0xF9, "add", "Y", "short,SP"),
                            (0, 0x1D, "sub", "X", "imm"), (0x72, 0xB0, "sub", "X", "long"), (0x72, 0xF0, "sub", "X", "short,SP"),
                            (0x72, 0xA2, "sub", "Y", "imm"), (0x72, 0xB2, "sub", "Y", "long"), (0x72, 0xF2, "sub", "Y", "short,SP")):
        put(p, op, "addw", m, r, md)
    put(0, 0x5B, "addsp")
    put(0, 0x52, "subsp")
    for p, r in ((0, "X"), (0x90, "Y")):
        o = "Y" if r == "X" else "X"
        put(p, 0x93, "ldrr", r, o)
        put(p, 0x94, "ldrr", "SP", r)
        put(p, 0x95, "ldbyte", r, 1)
        put(p, 0x96, "ldrr", r, "SP")
        put(p, 0x97, "ldbyte", r, 0)
        put(p, 0x9E, "lda8", r, 1)
        put(p, 0x9F, "lda8", r, 0)
        put(p, 0x01, "rrwa", r)
        put(p, 0x02, "rlwa", r)
        put(p, 0x42, "mul", r)
        put(p, 0x62, "div", r)
        put(p, 0x85, "popw", r)
        put(p, 0x89, "pushw", r)
        put(p, 0xAF, "ldf", "ext," + r)
        put(p, 0xA7, "stf", "ext," + r)
    put(0x92, 0xAF, "ldf", "[longe],X")
    put(0x91, 0xAF, "ldf", "[longe],Y")
    put(0x92, 0xA7, "stf", "[longe],X")
    put(0x91, 0xA7, "stf", "[longe],Y")
    put(0, 0xBC, "ldf", "ext")
    put(0, 0xBD, "stf", "ext")
    put(0x92, 0xBC, "ldf", "[longe]")
    put(0x92, 0xBD, "stf", "[longe]")
    put(0, 0xAC, "jpf", "ext")
    put(0x92, 0xAC, "jpf", "[longe]")
    put(0, 0x8D, "callf", "ext")
    put(0x92, 0x8D, "callf", "[longe]")
    for op, *e in ((0x65, "divw"), (0x31, "exgA"), (0x41, "exgr", "X"), (0x61, "exgr", "Y"), (0x51, "exgw"), (0x32, "popm"), (0x3B, "pushm"),
                   (0x4B, "pushi"), (0x35, "movi"), (0x45, "movs"), (0x55, "movl"), (0x80, "iret"), (0x81, "ret"), (0x82, "int"), (0x83, "trap"),
                   (0x84, "pop", "A"), (0x86, "pop", "CC"), (0x87, "retf"), (0x88, "push", "A"), (0x8A, "push", "CC"), (0x8C, "ccf"),
                   (0x98, "rcf"), (0x99, "scf"), (0x9A, "rim"), (0x9B, "sim"), (0x9C, "rvf"), (0x9D, "nop"), (0xAD, "callr")):
        put(0, op, *e)
    for i in range(16):
        put(0, 0x20 | i, "jr", i)
        put(0x72, i, "btj", i >> 1, i & 1)
        put(0x72, 0x10 | i, "bsr", i >> 1, i & 1)
        put(0x90, 0x10 | i, "bcc", i >> 1, i & 1)
    for i in (8, 9, 0xC, 0xD):
        put(0x90, 0x20 | i, "jr90", i)


_fill()


class STM8(CPU):
    sim, name, cls = "stm8", "STM8", "cl_stm8"
    includes = ["simstm8cl.h", "stm8cl.h"]
    cpus = "cpus_stm8"
    args = ["-t", "STM8S"]
    regs = {"A": ("u->regs.A", 8), "X": ("u->regs.X", 16), "Y": ("u->regs.Y", 16), "SP": ("u->regs.SP", 16), "CC": ("u->regs.CC", 8), "PC": ("u->PC", 24)}
    reserved = {"rom": [(0x1800, 0x3FFF), (0x5800, 0x5FFF), (0x6800, 0x7EFF)]}     # of the memory map
    mems = {"rom": "u->rom"}
    entry = "cl_stm8::exec_inst()"
    assumptions = ["the address space is 160K bytes of memory; near jumps and calls are judged inside one 64K section of the lowest one, data accesses up to 0x27fff"]

    def opcodes(self):
        return [(f"{p:02x} {o:02x} {OPS[p, o][0]}" if p else f"{o:02x} {OPS[p, o][0]}", [p, o] if p else [o]) for p, o in sorted(OPS)]

    def contracts(self, M, ex):
        ex.contract(r"^cl_list::(top|pop|push)\(", lambda ex, st, a: 0)    # nested interrupt levels: not part of the statement

    def spec(self, S, label, ops):
        p, op = ops if len(ops) == 2 else (0, ops[0])
        e = OPS[(p, op)]
        m = e[0]
        S.care["CC"] = 0xBF
        S.only.append(z3.ULT(S["PC"], 0xFFF0))
        S["PC"] = S["PC"] + len(ops)

        def rd(a):
            a = ext(a, 32)
            S.only.append(z3.ULT(a, MEMSZ))
            return S.rd("rom", a)

        def wr(a, v):
            a = ext(a, 32)
            S.only.append(z3.ULT(a, MEMSZ))
            S.wr("rom", a, v)

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def fetch16():
            h = fetch()
            return cat(h, fetch())

        def fetch24():
            h = fetch16()
            return cat(h, fetch())

        def rd16(a):
            a = ext(a, 32)
            return cat(rd(a), rd(a + 1))

        def rd24(a):
            a = ext(a, 32)
            return cat(rd(a), rd(a + 1), rd(a + 2))

        def wr16(a, v):
            a = ext(a, 32)
            wr(a, z3.Extract(15, 8, v))
            wr(a + 1, z3.Extract(7, 0, v))

        def ea(md):
            base, _, ix = md.partition(",")
            b = {"short": lambda: ext(fetch(), 32), "long": lambda: ext(fetch16(), 32), "0": lambda: z3.BitVecVal(0, 32),
                 "[short]": lambda: ext(rd16(fetch()), 32), "[long]": lambda: ext(rd16(fetch16()), 32), "ext": lambda: ext(fetch24(), 32),
                 "[longe]": lambda: ext(rd24(fetch16()), 32)}[base]()
            return z3.simplify(b + ext(S[ix], 32)) if ix else b

        def fl(**k):
            v = S["CC"]
            b = [bit(v, i) for i in range(8)]
            for n, x in k.items():
                i = dict(C=FC, Z=FZ, N=FN, I0=FI0, H=FH, I1=FI1, V=FV)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["CC"] = cat(*reversed(b))

        def nz(v, **k):
            fl(N=bit(v, v.size() - 1), Z=v == 0, **k)
        C = bit(S["CC"], FC)
        A, X, Y = S["A"], S["X"], S["Y"]

        def addx(a, b, ci, sub):
            w = a.size()
            o = ~b if sub else b
            c = ~ci if sub else ci
            r = z3.ZeroExt(1, a) + z3.ZeroExt(1, o) + z3.ZeroExt(w, c)
            res = z3.Extract(w - 1, 0, r)
            hw = 4 if w == 8 else 8
            h = z3.ZeroExt(1, z3.Extract(hw - 1, 0, a)) + z3.ZeroExt(1, z3.Extract(hw - 1, 0, o)) + z3.ZeroExt(hw, c)
            cy, hc = bit(r, w), bit(h, hw)
            if sub:
                cy, hc = ~cy, ~hc
            return res, cy, hc, bit((a ^ res) & (o ^ res), w - 1)
        zero = z3.BitVecVal(0, 1)

        def setsp(v):
            S["SP"] = z3.If(v == SP_LIMIT, z3.BitVecVal(SP_TOP, 16), v)      # the stack rolls over

        def push(v):
            wr(S["SP"], v)
            setsp(S["SP"] - 1)

        def pop():
            setsp(S["SP"] + 1)
            return rd(S["SP"])

        def push16(v):
            push(z3.Extract(7, 0, v))
            push(z3.Extract(15, 8, v))

        def pop16():
            h = pop()
            return cat(h, pop())

        def rmw(k, v):
            """-> result (None: memory unchanged), flags set."""
            w = v.size()
            if k == "neg":
                r = -v
                nz(r, V=v == (1 << (w - 1)), C=r != 0)
            elif k == "cpl":
                r = ~v
                nz(r, C=1)
            elif k == "srl":
                r = z3.LShR(v, 1)
                nz(r, C=bit(v, 0))
            elif k == "rrc":
                r = cat(C, z3.Extract(w - 1, 1, v))
                nz(r, C=bit(v, 0))
            elif k == "sra":
                r = v >> 1
                nz(r, C=bit(v, 0))
            elif k == "sll":
                r = v << 1
                nz(r, C=bit(v, w - 1))
            elif k == "rlc":
                r = cat(z3.Extract(w - 2, 0, v), C)
                nz(r, C=bit(v, w - 1))
            elif k == "dec":
                r = v - 1
                nz(r, V=v == (1 << (w - 1)))
            elif k == "inc":
                r = v + 1
                nz(r, V=r == (1 << (w - 1)))
            elif k == "tnz":
                nz(v)
                return None
            elif k == "swap":
                r = z3.RotateLeft(v, w // 2)
                nz(r)
            elif k == "clr":
                r = z3.BitVecVal(0, w)
                nz(r)
            return r

        def jump(t16):
            S["PC"] = ext(t16, 24)
        if m == "alu":
            k, md = e[1:]
            v = fetch() if md == "imm" else rd(ea(md))
            if k in ("add", "adc"):
                r, c, h, ov = addx(A, v, C if k == "adc" else zero, False)
                nz(r, V=ov, H=h, C=c)
                S["A"] = r
            elif k in ("sub", "sbc", "cp"):
                r, c, h, ov = addx(A, v, C if k == "sbc" else zero, True)
                nz(r, V=ov, C=c)
                if k != "cp":
                    S["A"] = r
            else:
                r = {"and": A & v, "bcp": A & v, "xor": A ^ v, "or": A | v}[k]
                nz(r)
                if k != "bcp":
                    S["A"] = r
        elif m == "lda":
            S["A"] = fetch() if e[1] == "imm" else rd(ea(e[1]))
            nz(S["A"])
        elif m == "sta":
            wr(ea(e[1]), A)
            nz(A)
        elif m in ("jp", "call"):
            t = ea(e[1])
            S.only.append(z3.ULT(t, 0x10000))
            if m == "call":
                push16(S["PC"])
            jump(z3.Extract(15, 0, t))
        elif m == "rmwA":
            r = rmw(e[1], A)
            if r is not None:
                S["A"] = r
        elif m == "rmwW":
            r = rmw(e[1], S[e[2]])
            if r is not None:
                S[e[2]] = r
        elif m == "rmw":
            a = ea(e[2])
            r = rmw(e[1], rd(a))
            if r is not None:
                wr(a, r)
        elif m == "ldw":
            S[e[1]] = fetch16() if e[2] == "imm" else rd16(ea(e[2]))
            nz(S[e[1]])
        elif m == "stw":
            wr16(ea(e[2]), S[e[1]])
            nz(S[e[1]])
        elif m == "cpw":
            v = fetch16() if e[2] == "imm" else rd16(ea(e[2]))
            r, c, h, ov = addx(S[e[1]], v, zero, True)
            nz(r, V=ov, C=c)
        elif m == "addw":
            k, rg, md = e[1:]
            v = fetch16() if md == "imm" else rd16(ea(md))
            r, c, h, ov = addx(S[rg], v, zero, k == "sub")
            nz(r, V=ov, C=c, H=h)
            S[rg] = r
        elif m in ("addsp", "subsp"):
            v = ext(fetch(), 16)
            S["SP"] = S["SP"] + v if m == "addsp" else S["SP"] - v
        elif m == "ldrr":
            S[e[1]] = S[e[2]]
        elif m == "ldbyte":
            r = S[e[1]]
            S[e[1]] = cat(A, z3.Extract(7, 0, r)) if e[2] else cat(z3.Extract(15, 8, r), A)
        elif m == "lda8":
            S["A"] = z3.Extract(15, 8, S[e[1]]) if e[2] else z3.Extract(7, 0, S[e[1]])
        elif m == "rrwa":
            r = S[e[1]]
            S[e[1]] = cat(A, z3.Extract(15, 8, r))
            S["A"] = z3.Extract(7, 0, r)
            nz(S[e[1]])
        elif m == "rlwa":
            r = S[e[1]]
            S[e[1]] = cat(z3.Extract(7, 0, r), A)
            S["A"] = z3.Extract(15, 8, r)
            nz(S[e[1]])
        elif m == "mul":
            S[e[1]] = ext(z3.Extract(7, 0, S[e[1]]), 16) * ext(A, 16)
            fl(H=0, C=0)
        elif m == "div":
            r = S[e[1]]
            a16 = ext(A, 16)
            z = A == 0
            S[e[1]] = z3.UDiv(r, a16)
            S["A"] = z3.Extract(7, 0, z3.URem(r, a16))
            fl(V=0, H=0, N=0, Z=S[e[1]] == 0, C=z)
            S.care[e[1]] = z3.If(z, z3.BitVecVal(0, 16), z3.BitVecVal(-1, 16))
            S.care["A"] = z3.If(z, z3.BitVecVal(0, 8), z3.BitVecVal(-1, 8))
            S.care["CC"] = z3.If(z, z3.BitVecVal(0xBF & ~2, 8), z3.BitVecVal(0xBF, 8))
        elif m == "divw":
            z = Y == 0
            S["X"] = z3.UDiv(X, Y)
            S["Y"] = z3.URem(X, Y)
            fl(V=0, H=0, N=0, Z=S["X"] == 0, C=z)
            for r in "XY":
                S.care[r] = z3.If(z, z3.BitVecVal(0, 16), z3.BitVecVal(-1, 16))
            S.care["CC"] = z3.If(z, z3.BitVecVal(0xBF & ~2, 8), z3.BitVecVal(0xBF, 8))
        elif m == "popw":
            S[e[1]] = pop16()
        elif m == "pushw":
            push16(S[e[1]])
        elif m in ("ldf", "stf"):
            a = ea(e[1])
            if m == "ldf":
                S["A"] = rd(a)
            else:
                wr(a, A)
            nz(S["A"])
        elif m in ("jpf", "callf"):
            q = fetch16() if e[1] == "[longe]" else None
            t = ext(rd24(q), 32) if e[1] == "[longe]" else ea(e[1])
            if m == "callf":
                push16(z3.Extract(15, 0, S["PC"]))
                push(z3.Extract(23, 16, S["PC"]))
                if p == 0x92:        # the stack must not overlap the pointer: the order is not documented
                    S.only.append(rd24(q) == z3.Extract(23, 0, t))
            S["PC"] = z3.Extract(23, 0, t)
        elif m == "exgA":
            a = ext(fetch16(), 32)
            v = rd(a)
            wr(a, A)
            S["A"] = v
        elif m == "exgr":
            r = S[e[1]]
            S["A"] = z3.Extract(7, 0, r)
            S[e[1]] = cat(z3.Extract(15, 8, r), A)
        elif m == "exgw":
            S["X"], S["Y"] = Y, X
        elif m == "popm":
            a = fetch16()
            wr(a, pop())
        elif m == "pushm":
            push(rd(fetch16()))
        elif m == "pushi":
            push(fetch())
        elif m == "movi":
            v = fetch()
            wr(fetch16(), v)
        elif m == "movs":
            v = rd(fetch())
            wr(fetch(), v)
        elif m == "movl":
            v = rd(fetch16())
            wr(fetch16(), v)
        elif m == "iret":
            S["CC"] = pop()
            S["A"] = pop()
            S["X"] = pop16()
            S["Y"] = pop16()
            h = pop()
            S["PC"] = cat(h, pop16())
        elif m == "ret":
            jump(pop16())
        elif m == "retf":
            h = pop()
            S["PC"] = cat(h, pop16())
        elif m == "int":
            S["PC"] = fetch24()
        elif m == "trap":
            push16(z3.Extract(15, 0, S["PC"]))
            push(z3.Extract(23, 16, S["PC"]))
            push16(Y)
            push16(X)
            push(A)
            push(S["CC"])
            fl(I0=1, I1=1)
            S["PC"] = z3.BitVecVal(0x8004, 24)
        elif m == "pop":
            S[e[1]] = pop()
        elif m == "push":
            push(S[e[1]])
        elif m == "ccf":
            fl(C=~C)
        elif m == "rcf":
            fl(C=0)
        elif m == "scf":
            fl(C=1)
        elif m == "rim":
            fl(I1=1, I0=0)
        elif m == "sim":
            fl(I1=1, I0=1)
        elif m == "rvf":
            fl(V=0)
        elif m == "nop":
            pass
        elif m == "callr":
            d = sx(fetch(), 24)
            push16(S["PC"])
            S["PC"] = S["PC"] + d
            S.only.append(z3.ULT(S["PC"], 0x10000))
        elif m in ("jr", "jr90"):
            d = sx(fetch(), 24)
            f = lambda i: tst(S["CC"], i)
            n_xor_v = bit(S["CC"], FN) ^ bit(S["CC"], FV) == 1
            if m == "jr":
                c = [z3.BoolVal(True), z3.Or(f(FC), f(FZ)), f(FC), f(FZ), f(FV), f(FN), z3.Or(f(FZ), n_xor_v), n_xor_v][e[1] >> 1]
                # even: the complement of the odd one (JRT/JRF, UGT/ULE, NC/C, NE/EQ, NV/V, PL/MI, SGT/SLE, SGE/SLT)
                take = (c if e[1] == 0 else z3.BoolVal(False)) if e[1] < 2 else (c if e[1] & 1 else z3.Not(c))
            else:
                c = f(FH) if e[1] < 0xC else z3.And(f(FI0), f(FI1))
                if e[1] >= 0xC:
                    S.only.append(f(FI0) == f(FI1))     # what JRM tests at the levels in between is not judged
                take = c if e[1] & 1 else z3.Not(c)
            t = S["PC"] + d
            S.only.append(z3.Or(z3.Not(take), z3.ULT(t, 0x10000)))
            S["PC"] = z3.If(take, t, S["PC"])
        elif m == "btj":
            v = rd(fetch16())
            d = sx(fetch(), 24)
            b = bit(v, e[1])
            fl(C=b)
            take = b == (0 if e[2] else 1)
            t = S["PC"] + d
            S.only.append(z3.Or(z3.Not(take), z3.ULT(t, 0x10000)))
            S["PC"] = z3.If(take, t, S["PC"])
        elif m in ("bsr", "bcc"):
            a = ext(fetch16(), 32)
            v = rd(a)
            k = 1 << e[1]
            if m == "bsr":
                wr(a, v & (0xFF ^ k) if e[2] else v | k)
            else:
                wr(a, z3.If(C == 1, v | k, v & (0xFF ^ k)) if e[2] else v ^ k)
        else:
            raise NotImplementedError(m)


CPUS = [STM8]
