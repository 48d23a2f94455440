"""Motorola MC6809: the MC6809 programming manual."""
import z3
from ..isa import CPU, Pat, pattern, ext, sx, cat, bit, tst, b1, bn

FC, FV, FZ, FN, FI, FH, FF, FE = range(8)
RMW = {0: "neg", 3: "com", 4: "lsr", 6: "ror", 7: "asr", 8: "asl", 9: "rol", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}
ROW = {0x8: "imm", 0x9: "dir", 0xA: "idx", 0xB: "ext", 0xC: "imm", 0xD: "dir", 0xE: "idx", 0xF: "ext"}
# the indexed addressing postbytes: r is the pointer register, n a 5 bit offset
IDX = {"n5": "0rrnnnnn"}
for _i, _b in ((0, 1), (1, 0)):
    for _c, _m in enumerate("r+ r++ -r --r r b,r a,r - n8,r n16,r - d,r n8,pc n16,pc - ext".split()):
        if _m == "-" or _b and _m in ("r+", "-r") or not _b and _m == "ext":
            continue
        IDX[("[%s]" if _b else "%s") % _m] = "10011111" if _m == "ext" else f"1{'xx' if 'pc' in _m else 'rr'}{_b}{_c:04b}"
TR = {0: "D", 1: "X", 2: "Y", 3: "U", 4: "S", 5: "PC", 8: "A", 9: "B", 0xA: "P", 0xB: "DP"}
PTR = ["X", "Y", "U", "S"]
STK = ["P", "A", "B", "DP", "X", "Y", None, "PC"]


class M6809(CPU):
    sim, name, cls = "m6809", "m6809", "cl_m6809"
    includes = ["simm6809cl.h", "m6809cl.h"]
    cpus = "cpus_m6809"
    args = []
    regs = {"A": ("u->reg.acc.a8.rA", 8), "B": ("u->reg.acc.a8.rB", 8), "P": ("u->reg.CC", 8), "DP": ("u->reg.DP", 8), "X": ("u->reg.X", 16), "Y": ("u->reg.Y", 16),
            "U": ("u->reg.U", 16), "S": ("u->reg.S", 16), "PC": ("u->PC", 16), "STATE": ("*(int*)&u->state", 32), "CWAI": ("*(u8_t*)&u->cwai", 1)}
    free = {"nmi": "*(u8_t*)&u->en_nmi"}
    mems = {"rom": "u->rom"}
    entry = "cl_m6809::exec_inst()"
    watch = {k: v for k, v in CPU.watch.items() if k != "state"}

    def opcodes(self):
        out = []

        def idx(label, *ops):
            for m, p in IDX.items():
                out.append((f"{label} {m}", [*ops, Pat(p)]))
        for o in range(256):
            hi, lo = o >> 4, o & 15
            l = f"{o:02x}"
            if hi in (0, 4, 5, 6, 7):
                if not (lo in RMW or lo == 0xE and hi in (0, 6, 7)):
                    continue
                if hi == 6:
                    idx(l, o)
                    continue
            elif hi == 1:
                if o in (0x1E, 0x1F):
                    for a in TR:
                        for b in TR:
                            if a >> 3 == b >> 3:
                                out.append((f"{l} {TR[a]},{TR[b]}", [o, a << 4 | b]))
                    continue
                if o not in (0x12, 0x13, 0x16, 0x17, 0x19, 0x1A, 0x1C, 0x1D):
                    continue
            elif hi == 3:
                if lo < 4:
                    idx(l, o)
                    continue
                if lo < 8:
                    for b in range(256):
                        out.append((f"{l} {b:02x}", [o, b]))
                    continue
                if lo not in (9, 0xA, 0xB, 0xC, 0xD, 0xF):
                    continue
            elif hi >= 8:
                if hi in (8, 0xC) and (lo in (7, 0xF) or o == 0xCD):
                    continue
                if ROW[hi] == "idx":
                    idx(l, o)
                    continue
            out.append((l, [o]))
        for p, os in ((0x10, [*range(0x21, 0x30), 0x3F, 0x83, 0x93, 0xA3, 0xB3, 0x8C, 0x9C, 0xAC, 0xBC, 0x8E, 0x9E, 0xAE, 0xBE, 0x9F, 0xAF, 0xBF, 0xCE, 0xDE, 0xEE, 0xFE, 0xDF, 0xEF, 0xFF]),
                      (0x11, [0x3F, 0x83, 0x93, 0xA3, 0xB3, 0x8C, 0x9C, 0xAC, 0xBC])):
            for o in os:
                if o & 0xB0 == 0xA0:
                    idx(f"{p:02x}{o:02x}", p, o)
                else:
                    out.append((f"{p:02x}{o:02x}", [p, o]))
        return out

    def spec(self, S, label, ops):
        page = ops[0] if ops[0] in (0x10, 0x11) else 0
        n = 2 if page else 1
        op = ops[n - 1]
        post = ops[n] if len(ops) > n else None
        hi, lo = op >> 4, op & 15
        S["PC"] = S["PC"] + n
        P, C = S["P"], bit(S["P"], FC)
        Z1 = z3.BitVecVal(0, 1)

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def fetch16():
            h = fetch()
            return cat(h, fetch())

        def rd(a):
            return S.rd("rom", a)

        def rd16(a):
            return cat(rd(a), rd(a + 1))

        def wr(a, v):
            if v.size() == 16:
                S.wr("rom", a, z3.Extract(15, 8, v))
                S.wr("rom", a + 1, z3.Extract(7, 0, v))
            else:
                S.wr("rom", a, v)

        def fl(**k):
            b = [bit(S["P"], i) for i in range(8)]
            for m, x in k.items():
                i = dict(C=FC, Z=FZ, N=FN, I=FI, H=FH, V=FV, F=FF, E=FE)[m]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["P"] = cat(*reversed(b))

        def undef(*fs):
            m = 0xFF
            for f in fs:
                m &= ~(1 << f)
            S.care["P"] = m

        def nz(v, **k):
            fl(N=bit(v, v.size() - 1), Z=v == 0, **k)

        def get(r):
            return cat(S["A"], S["B"]) if r == "D" else S[r]

        def put(r, v):
            if r == "D":
                S["A"], S["B"] = z3.Extract(15, 8, v), z3.Extract(7, 0, v)
            else:
                S[r] = v

        def push(s, v):
            if v.size() == 16:
                push(s, z3.Extract(7, 0, v))
                push(s, z3.Extract(15, 8, v))
            else:
                S[s] = S[s] - 1
                wr(S[s], v)

        def pop(s, w):
            if w == 16:
                h = pop(s, 8)
                return cat(h, pop(s, 8))
            v = rd(S[s])
            S[s] = S[s] + 1
            return v

        def push_all():
            for r in ("PC", "U", "Y", "X", "DP", "B", "A", "P"):
                push("S", S[r])

        def indexed():
            f = pattern(post)[1]
            m = label.split(" ")[1]
            S["PC"] = S["PC"] + 1
            ind = m[0] == "["
            m = m.strip("[]")
            rr = f.get("r")

            def base():
                v = S["X"]
                for i in (1, 2, 3):
                    v = z3.If(rr == i, S[PTR[i]], v)
                return v

            def step(k):
                for i in range(4):
                    S[PTR[i]] = z3.If(rr == i, S[PTR[i]] + k, S[PTR[i]])
            if m == "n5":
                a = base() + sx(f["n"], 16)
            elif m in ("r+", "r++"):
                a = base()
                step(len(m) - 1)
            elif m in ("-r", "--r"):
                step(1 - len(m))
                a = base()
            elif m == "r":
                a = base()
            elif m in ("a,r", "b,r"):
                a = base() + sx(S[m[0].upper()], 16)
            elif m == "d,r":
                a = base() + get("D")
            elif m == "n8,r":
                a = base() + sx(fetch(), 16)
            elif m == "n16,r":
                a = base() + fetch16()
            elif m == "n8,pc":
                o = sx(fetch(), 16)
                a = S["PC"] + o
            elif m == "n16,pc":
                o = fetch16()
                a = S["PC"] + o
            else:
                a = fetch16()
            return rd16(a) if ind else a

        def ea(mode):
            if mode == "dir":
                return cat(S["DP"], fetch())
            if mode == "ext":
                return fetch16()
            return indexed()

        def operand(mode, w):
            if mode == "imm":
                return fetch() if w == 8 else fetch16()
            a = ea(mode)
            return rd(a) if w == 8 else rd16(a)

        def sub(a, b, borrow=Z1):
            w = a.size()
            r = z3.ZeroExt(1, a) - z3.ZeroExt(1, b) - z3.ZeroExt(w, borrow)
            v = z3.Extract(w - 1, 0, r)
            nz(v, C=bit(r, w), V=(bit(a, w - 1) ^ bit(b, w - 1)) & (bit(a, w - 1) ^ bit(v, w - 1)))
            if w == 8:
                undef(FH)
            return v

        def add(a, b, ci=Z1):
            w = a.size()
            r = z3.ZeroExt(1, a) + z3.ZeroExt(1, b) + z3.ZeroExt(w, ci)
            v = z3.Extract(w - 1, 0, r)
            nz(v, C=bit(r, w), V=~(bit(a, w - 1) ^ bit(b, w - 1)) & (bit(a, w - 1) ^ bit(v, w - 1)))
            if w == 8:
                h = z3.ZeroExt(1, z3.Extract(3, 0, a)) + z3.ZeroExt(1, z3.Extract(3, 0, b)) + z3.ZeroExt(4, ci)
                fl(H=bit(h, 4))
            return v

        def ld(r, mode):
            v = operand(mode, get(r).size())
            put(r, v)
            nz(v, V=0)

        def st(r, mode):
            a = ea(mode)
            v = get(r)
            wr(a, v)
            nz(v, V=0)

        def cond(i):
            f = {k: bit(S["P"], v) == 1 for k, v in dict(C=FC, Z=FZ, N=FN, V=FV).items()}
            s = f["N"] != f["V"]
            c = [z3.BoolVal(True), z3.Not(z3.Or(f["C"], f["Z"])), z3.Not(f["C"]), z3.Not(f["Z"]), z3.Not(f["V"]), z3.Not(f["N"]), z3.Not(s), z3.Not(z3.Or(s, f["Z"]))][i >> 1]
            return z3.Not(c) if i & 1 else c

        def rmw(m, mode):
            a = None
            if mode in ("A", "B"):
                v = S[mode]
            else:
                a = ea(mode)
                v = rd(a)
            if m == "neg":
                r = -v
                nz(r, C=r != 0, V=r == 0x80)
                undef(FH)
            elif m == "com":
                r = ~v
                nz(r, C=1, V=0)
            elif m in ("lsr", "ror", "asr"):
                r = cat({"lsr": Z1, "ror": C, "asr": bit(v, 7)}[m], z3.Extract(7, 1, v))
                nz(r, C=bit(v, 0))
                if m == "asr":
                    undef(FH)
            elif m in ("asl", "rol"):
                r = cat(z3.Extract(6, 0, v), C if m == "rol" else Z1)
                nz(r, C=bit(v, 7), V=bit(v, 7) ^ bit(v, 6))
                if m == "asl":
                    undef(FH)
            elif m == "dec":
                r = v - 1
                nz(r, V=v == 0x80)
            elif m == "inc":
                r = v + 1
                nz(r, V=v == 0x7F)
            elif m == "tst":
                nz(v, V=0)
                return
            else:
                r = z3.BitVecVal(0, 8)
                nz(r, V=0, C=0)
            if a is None:
                S[mode] = r
            else:
                wr(a, r)
        A, B = S["A"], S["B"]
        if hi == 2:
            o = fetch16() if page else sx(fetch(), 16)
            S["PC"] = z3.If(cond(lo), S["PC"] + o, S["PC"])
        elif op == 0x3F:
            fl(E=1)
            push_all()
            if not page:
                fl(I=1, F=1)
            S["PC"] = rd16(z3.BitVecVal({0: 0xFFFA, 0x10: 0xFFF4, 0x11: 0xFFF2}[page], 16))
        elif hi in (0, 4, 5, 6, 7):
            mode = {0: "dir", 4: "A", 5: "B", 6: "idx", 7: "ext"}[hi]
            if lo == 0xE:
                S["PC"] = ea(mode)
            else:
                rmw(RMW[lo], mode)
        elif op == 0x12:
            pass
        elif op == 0x13:
            S["STATE"] = self.IDLE
        elif op in (0x16, 0x17):
            o = fetch16()
            if op == 0x17:
                push("S", S["PC"])
            S["PC"] = S["PC"] + o
        elif op == 0x19:
            l, h = z3.Extract(3, 0, A), z3.Extract(7, 4, A)
            cl = z3.Or(bit(P, FH) == 1, z3.UGT(l, 9))
            ch = z3.Or(C == 1, z3.UGT(h, 9), z3.And(z3.UGT(h, 8), z3.UGT(l, 9)))
            r = z3.ZeroExt(1, A) + z3.If(cl, z3.BitVecVal(6, 9), z3.BitVecVal(0, 9)) + z3.If(ch, z3.BitVecVal(0x60, 9), z3.BitVecVal(0, 9))
            S["A"] = z3.Extract(7, 0, r)
            nz(S["A"], C=bit(r, 8) | C)
            undef(FV)
        elif op in (0x1A, 0x1C):
            v = fetch()
            S["P"] = P | v if op == 0x1A else P & v
        elif op == 0x1D:
            S["A"] = sx(bit(B, 7), 8)
            nz(get("D"))
            undef(FV)
        elif op in (0x1E, 0x1F):
            S["PC"] = S["PC"] + 1
            a, b = TR[post >> 4], TR[post & 15]
            x, y = get(a), get(b)
            put(b, x)
            if op == 0x1E:
                put(a, y)
        elif hi == 3 and lo < 4:
            a = indexed()
            r = ["X", "Y", "S", "U"][lo]
            S[r] = a
            if lo < 2:
                fl(Z=a == 0)
        elif op in (0x34, 0x35, 0x36, 0x37):
            S["PC"] = S["PC"] + 1
            s, o = ("S", "U") if op < 0x36 else ("U", "S")
            for i in (range(8) if op & 1 else range(7, -1, -1)):
                if post >> i & 1:
                    r = STK[i] or o
                    if op & 1:
                        S[r] = pop(s, S[r].size())
                    else:
                        push(s, S[r])
        elif op == 0x39:
            S["PC"] = pop("S", 16)
        elif op == 0x3A:
            S["X"] = S["X"] + z3.ZeroExt(8, B)
        elif op == 0x3B:
            S["P"] = pop("S", 8)

            def full(T):
                for r in ("A", "B", "DP", "X", "Y", "U"):
                    w = T[r].size()
                    v = T.rd("rom", T["S"])
                    T["S"] = T["S"] + 1
                    if w == 16:
                        v = cat(v, T.rd("rom", T["S"]))
                        T["S"] = T["S"] + 1
                    T[r] = v
            S.fork_if(bit(S["P"], FE) == 1, full)
            S["PC"] = pop("S", 16)
        elif op == 0x3C:
            S["P"] = P & fetch()
            fl(E=1)
            push_all()
            S["CWAI"] = 1
            S["STATE"] = self.IDLE
        elif op == 0x3D:
            r = z3.ZeroExt(8, A) * z3.ZeroExt(8, B)
            put("D", r)
            fl(Z=r == 0, C=bit(r, 7))
        elif op == 0x8D:
            o = sx(fetch(), 16)
            push("S", S["PC"])
            S["PC"] = S["PC"] + o
        else:
            mode = ROW[hi]
            r8 = "A" if hi < 0xC else "B"
            if lo in (3, 0xC) and (hi < 0xC or page):
                r = {0: {3: "D", 0xC: "X"}, 0x10: {3: "D", 0xC: "Y"}, 0x11: {3: "U", 0xC: "S"}}[page][lo]
                v = operand(mode, 16)
                x = sub(get(r), v)
                if lo == 3 and not page:
                    put("D", x)
            elif lo == 3:
                v = operand(mode, 16)
                put("D", add(get("D"), v))
            elif lo == 0xC:
                ld("D", mode)
            elif lo == 0xD and hi < 0xC:
                a = ea(mode)
                push("S", S["PC"])
                S["PC"] = a
            elif lo == 0xD:
                st("D", mode)
            elif lo in (0xE, 0xF):
                r = ("X", "U")[hi >= 0xC] if not page else ("Y", "S")[hi >= 0xC]
                (ld if lo == 0xE else st)(r, mode)
            elif lo == 6:
                ld(r8, mode)
            elif lo == 7:
                st(r8, mode)
            elif lo in (0, 1, 2):
                v = operand(mode, 8)
                x = sub(S[r8], v, C if lo == 2 else Z1)
                if lo != 1:
                    S[r8] = x
            elif lo in (9, 0xB):
                v = operand(mode, 8)
                S[r8] = add(S[r8], v, C if lo == 9 else Z1)
            elif lo in (4, 5, 8, 0xA):
                v = operand(mode, 8)
                a = S[r8]
                r = {4: a & v, 5: a & v, 8: a ^ v, 0xA: a | v}[lo]
                nz(r, V=0)
                if lo != 5:
                    S[r8] = r
            else:
                raise NotImplementedError(label)

    IDLE = 1


CPUS = [M6809]
