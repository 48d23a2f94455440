"""STMicroelectronics ST7: the ST7 family programming manual (PM0044)."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn

FC, FZ, FN, FI, FH = 0, 1, 2, 3, 4
ALU = {0: "sub", 1: "cp", 2: "sbc", 3: "cpxy", 4: "and", 5: "bcp", 6: "lda", 7: "sta", 8: "xor", 9: "adc", 0xA: "or", 0xB: "add", 0xC: "jp", 0xD: "call", 0xE: "ldxy", 0xF: "stxy"}
RMW = {0: "neg", 3: "cpl", 4: "srl", 6: "rrc", 7: "sra", 8: "sll", 9: "rlc", 0xA: "dec", 0xC: "inc", 0xD: "tnz", 0xE: "swap", 0xF: "clr"}
XY = (3, 0xE, 0xF)
HALT = 101                      # resHALT


class ST7(CPU):
    sim, name, cls = "st7", "st7", "cl_st7"
    includes = ["simst7cl.h", "st7cl.h"]
    cpus = "cpus_st7"
    args = ["-t", "ST7"]
    regs = {"A": ("u->regs.A", 8), "X": ("u->regs.X", 8), "Y": ("u->regs.Y", 8), "CC": ("u->regs.CC", 8), "SP": ("u->regs.SP", 16), "PC": ("u->PC", 16)}
    mems = {"rom": "u->rom"}
    entry = "cl_st7::exec_inst()"
    setup_extra = "  u->regs.VECTOR= 0;\n"          # the reset vector has been taken
    watch = dict(CPU.watch, vector="u->regs.VECTOR")

    def opcodes(self):
        out = []
        for p in (0, 0x90, 0x91, 0x92):
            for o in range(256):
                hi, lo = o >> 4, o & 15
                if hi in (0, 1):
                    ok = p in (0, 0x92)
                elif hi == 2:
                    ok = p in (0, 0x92) and lo < 14          # JRIL, JRIH: the state of the interrupt pin
                elif o == 0x42:
                    ok = p in (0, 0x90)
                elif 3 <= hi <= 7:
                    ok = lo in RMW and p in {3: (0, 0x92), 4: (0,), 5: (0, 0x90), 6: (0, 0x90, 0x91, 0x92), 7: (0, 0x90)}[hi]
                elif hi == 8:
                    ok = o in (0x80, 0x81, 0x84, 0x86, 0x88, 0x8A) and p == 0 or o in (0x85, 0x89) and p in (0, 0x90) or o in (0x8E, 0x8F) and p == 0
                elif hi == 9:
                    ok = o in (0x95, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E) and p == 0 or o in (0x93, 0x94, 0x96, 0x97, 0x9F) and p in (0, 0x90)
                elif hi == 0xA:
                    ok = lo not in (7, 0xC, 0xD, 0xF) and (p == 0 or p == 0x90 and lo in XY) or lo == 0xD and p in (0, 0x92)
                elif hi in (0xB, 0xC):
                    ok = p in (0, 0x92) or lo in XY
                elif hi in (0xD, 0xE):
                    ok = True
                else:
                    ok = p in (0, 0x90)
                if ok:
                    out.append((f"{p:02x}{o:02x}", [p, o]) if p else (f"{o:02x}", [o]))
        return out

    def spec(self, S, label, ops):
        op = ops[-1]
        pre = ops[0] if len(ops) == 2 else 0
        hi, lo = op >> 4, op & 15
        S["PC"] = S["PC"] + len(ops)
        A, X, Y, C = S["A"], S["X"], S["Y"], bit(S["CC"], FC)

        def rd(a):
            return S.rd("rom", a)

        def fetch():
            v = rd(S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def w(v):
            return z3.ZeroExt(8, v)

        def fetch16():
            h = fetch()
            return cat(h, fetch())

        def rd16(a):
            return cat(rd(a), rd(a + 1))

        def fl(**k):
            b = [bit(S["CC"], i) for i in range(8)]
            for n, x in k.items():
                i = dict(C=FC, Z=FZ, N=FN, I=FI, H=FH)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["CC"] = cat(*reversed(b))

        def nz(v, **k):
            fl(N=bit(v, 7), Z=v == 0, **k)

        def push(v):
            S.wr("rom", S["SP"], v)
            S["SP"] = S["SP"] - 1

        def pop():
            S["SP"] = S["SP"] + 1
            return rd(S["SP"])

        def push16(v):
            push(z3.Extract(7, 0, v))
            push(z3.Extract(15, 8, v))

        def pop16():
            h = pop()
            return cat(h, pop())

        yop = pre in (0x90, 0x91)
        ind = pre in (0x91, 0x92)
        XYn = "Y" if yop else "X"
        idx = w(S[XYn])

        def ea(row):
            if row in (3, 0xB):
                p = w(fetch())
                return w(rd(p)) if ind else p
            if row == 0xC:
                return rd16(w(fetch())) if ind else fetch16()
            if row == 0xD:
                return (rd16(w(fetch())) if ind else fetch16()) + idx
            if row in (6, 0xE):
                p = fetch()
                return w(rd(w(p)) if ind else p) + idx
            return idx

        def rel(c):
            d = fetch()
            if pre == 0x92 and hi != 0:
                d = rd(w(d))
            S["PC"] = z3.If(c, S["PC"] + sx(d, 16), S["PC"])

        def sub(a, b, borrow=None):
            r = w(a) - w(b)
            if borrow is not None:
                r = r - z3.ZeroExt(15, borrow)
            v = z3.Extract(7, 0, r)
            nz(v, C=bit(r, 8))
            return v

        if hi in (0, 1):                               # BTJT, BTJF, BSET, BRES
            a = w(fetch())
            if ind:
                a = w(rd(a))
            n = lo >> 1
            v = rd(a)
            if hi == 0:
                t = bit(v, n)
                rel(t == (0 if lo & 1 else 1))
                fl(C=t)
            else:
                m = 1 << n
                S.wr("rom", a, v & (0xFF ^ m) if lo & 1 else v | m)
            return
        if hi == 2:
            cc = S["CC"]
            c = [z3.BoolVal(True), z3.And(bit(cc, FC) == 0, bit(cc, FZ) == 0), bit(cc, FC) == 0, bit(cc, FZ) == 0, bit(cc, FH) == 0, bit(cc, FN) == 0, bit(cc, FI) == 0][lo >> 1]
            rel(z3.Not(c) if lo & 1 else c)
            return
        if op == 0x42:
            r = w(A) * w(S[XYn])
            S["A"], S[XYn] = z3.Extract(7, 0, r), z3.Extract(15, 8, r)
            fl(H=0, C=0)
            return
        if 3 <= hi <= 7:
            m = RMW[lo]
            a = None
            if hi == 4:
                v = A
            elif hi == 5:
                v = S[XYn]
            else:
                a = ea(hi)
                v = None if m == "clr" else rd(a)
            if m == "neg":
                r = -v
                nz(r, C=r != 0)
            elif m == "cpl":
                r = ~v
                nz(r, C=1)
            elif m == "srl":
                r = z3.LShR(v, 1)
                nz(r, C=bit(v, 0))
            elif m == "sra":
                r = v >> 1
                nz(r, C=bit(v, 0))
            elif m == "sll":
                r = v << 1
                nz(r, C=bit(v, 7))
            elif m == "rrc":
                r = cat(C, z3.Extract(7, 1, v))
                nz(r, C=bit(v, 0))
            elif m == "rlc":
                r = cat(z3.Extract(6, 0, v), C)
                nz(r, C=bit(v, 7))
            elif m == "dec":
                r = v - 1
                nz(r)
            elif m == "inc":
                r = v + 1
                nz(r)
            elif m == "swap":
                r = cat(z3.Extract(3, 0, v), z3.Extract(7, 4, v))
                nz(r)
            elif m == "tnz":
                nz(v)
                return
            else:
                r = z3.BitVecVal(0, 8)
                nz(r)
            if hi == 4:
                S["A"] = r
            elif hi == 5:
                S[XYn] = r
            else:
                S.wr("rom", a, r)
            return
        if hi == 8:
            if op == 0x80:
                S["CC"] = pop()
                S["A"] = pop()
                S["X"] = pop()
                S["PC"] = pop16()
            elif op == 0x81:
                S["PC"] = pop16()
            elif op == 0x84:
                S["A"] = pop()
            elif op == 0x85:
                S[XYn] = pop()
            elif op == 0x86:
                S["CC"] = pop()
            elif op == 0x88:
                push(A)
            elif op == 0x89:
                push(S[XYn])
            elif op == 0x8A:
                push(S["CC"])
            else:                                       # HALT, WFI: interrupts enabled; the processor stays at the instruction
                fl(I=0)
                S["PC"] = S["PC"] - 1
                S.ret = HALT
            return
        if hi == 9:
            if op == 0x93:
                S[XYn] = S["X" if yop else "Y"]
            elif op == 0x94:
                S["SP"] = z3.BitVecVal(0x0100, 16) | w(S[XYn])
            elif op == 0x95:
                S["SP"] = z3.BitVecVal(0x0100, 16) | w(A)
            elif op == 0x96:
                S[XYn] = z3.Extract(7, 0, S["SP"])
            elif op == 0x97:
                S[XYn] = A
            elif op in (0x98, 0x99):
                fl(C=op & 1)
            elif op in (0x9A, 0x9B):
                fl(I=op & 1)
            elif op == 0x9C:
                S["SP"] = z3.BitVecVal(0x017F, 16)
            elif op == 0x9E:
                S["A"] = z3.Extract(7, 0, S["SP"])
            elif op == 0x9F:
                S["A"] = S[XYn]
            return
        m = ALU[lo]
        if op == 0xAD:                                  # CALLR
            d = fetch()
            if ind:
                d = rd(w(d))
            push16(S["PC"])
            S["PC"] = S["PC"] + sx(d, 16)
            return
        if m in ("jp", "call"):
            a = ea(hi)
            if m == "call":
                push16(S["PC"])
            S["PC"] = a
            return
        if m in ("sta", "stxy"):
            v = A if m == "sta" else S[XYn]
            S.wr("rom", ea(hi), v)
            nz(v)
            return
        v = fetch() if hi == 0xA else rd(ea(hi))
        if m == "sub":
            S["A"] = sub(A, v)
        elif m == "cp":
            sub(A, v)
        elif m == "sbc":
            S["A"] = sub(A, v, C)
        elif m == "cpxy":
            sub(S[XYn], v)
        elif m == "and":
            S["A"] = A & v
            nz(S["A"])
        elif m == "bcp":
            nz(A & v)
        elif m == "lda":
            S["A"] = v
            nz(v)
        elif m == "ldxy":
            S[XYn] = v
            nz(v)
        elif m == "xor":
            S["A"] = A ^ v
            nz(S["A"])
        elif m == "or":
            S["A"] = A | v
            nz(S["A"])
        else:
            r = w(A) + w(v)
            h = z3.ZeroExt(1, z3.Extract(3, 0, A)) + z3.ZeroExt(1, z3.Extract(3, 0, v))
            if m == "adc":
                r = r + z3.ZeroExt(15, C)
                h = h + z3.ZeroExt(4, C)
            S["A"] = z3.Extract(7, 0, r)
            nz(S["A"], C=bit(r, 8), H=bit(h, 4))


CPUS = [ST7]
