"""AVR: the AVR Instruction Set Manual (16-bit program counter, 64K data space)."""
import z3
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn, pattern

C, Z, N, V, S_, H, T, I = range(8)
SREG, SPL, SPH = 0x5F, 0x5D, 0x5E

TAB = {}
for _l in """
add 000011rdddddrrrr; adc 000111rdddddrrrr; adiw 10010110KKddKKKK; sub 000110rdddddrrrr; subi 0101KKKKddddKKKK; sbc 000010rdddddrrrr
sbci 0100KKKKddddKKKK; sbiw 10010111KKddKKKK; and 001000rdddddrrrr; andi 0111KKKKddddKKKK; or 001010rdddddrrrr; ori 0110KKKKddddKKKK
eor 001001rdddddrrrr; com 1001010ddddd0000; neg 1001010ddddd0001; inc 1001010ddddd0011; dec 1001010ddddd1010; mul 100111rdddddrrrr
muls 00000010ddddrrrr; mulsu 000000110ddd0rrr; fmul 000000110ddd1rrr; fmuls 000000111ddd0rrr; fmulsu 000000111ddd1rrr
rjmp 1100kkkkkkkkkkkk; ijmp 1001010000001001; jmp 1001010kkkkk110k; rcall 1101kkkkkkkkkkkk; icall 1001010100001001; call 1001010kkkkk111k
ret 1001010100001000; reti 1001010100011000; cpse 000100rdddddrrrr; cp 000101rdddddrrrr; cpc 000001rdddddrrrr; cpi 0011KKKKddddKKKK
sbrc 1111110rrrrr0bbb; sbrs 1111111rrrrr0bbb; sbic 10011001AAAAAbbb; sbis 10011011AAAAAbbb; brbs 111100kkkkkkksss; brbc 111101kkkkkkksss
mov 001011rdddddrrrr; movw 00000001ddddrrrr; ldi 1110KKKKddddKKKK; lds 1001000ddddd0000; sts 1001001rrrrr0000
ldX 1001000ddddd1100; ldX+ 1001000ddddd1101; ld-X 1001000ddddd1110; ldY+ 1001000ddddd1001; ld-Y 1001000ddddd1010
ldZ+ 1001000ddddd0001; ld-Z 1001000ddddd0010; lddY 10q0qq0ddddd1qqq; lddZ 10q0qq0ddddd0qqq
stX 1001001ddddd1100; stX+ 1001001ddddd1101; st-X 1001001ddddd1110; stY+ 1001001ddddd1001; st-Y 1001001ddddd1010
stZ+ 1001001ddddd0001; st-Z 1001001ddddd0010; stdY 10q0qq1ddddd1qqq; stdZ 10q0qq1ddddd0qqq
lpm 1001010111001000; lpmZ 1001000ddddd0100; lpmZ+ 1001000ddddd0101; in 10110AAdddddAAAA; out 10111AArrrrrAAAA; push 1001001ddddd1111
pop 1001000ddddd1111; lsr 1001010ddddd0110; ror 1001010ddddd0111; asr 1001010ddddd0101; swap 1001010ddddd0010
bset 100101000sss1000; bclr 100101001sss1000; sbi 10011010AAAAAbbb; cbi 10011000AAAAAbbb; bst 1111101ddddd0bbb; bld 1111100ddddd0bbb
nop 0000000000000000; wdr 1001010110101000
""".replace(";", "\n").strip().split("\n"):
    _n, _p = _l.split()
    assert len(_p) == 16, _l
    if _n in ("muls", "mulsu", "fmul", "fmuls", "fmulsu", "movw", "lpmZ", "lpmZ+"):
        continue
    TAB[_n] = _p
# not in the instruction set of the device simulated (its disassembler does not know them), or they depend on the device or stop the processor
OTHER = ["1001010110001000", "1001010111011000"]


def matches(w, p):
    m = int("".join("1" if c in "01" else "0" for c in p), 2)
    v = int("".join(c if c in "01" else "0" for c in p), 2)
    return (w & m) == v


CYCLES = dict(adiw=2, sbiw=2, mul=2, muls=2, mulsu=2, fmul=2, fmuls=2, fmulsu=2, rjmp=2, ijmp=2, jmp=3, rcall=3, icall=3, call=4, ret=4, reti=4, push=2, pop=2, sbi=2, cbi=2,
              lpm=3, lpmZ=3, lds=None, sts=None)        # data sheets differ on LDS and STS
CYCLES["lpmZ+"] = 3


class AVR(CPU):
    sim, name, cls = "avr", "avr", "cl_avr"
    includes = ["simavrcl.h", "avrcl.h"]
    cpus = "cpus_avr"
    args = []
    regs = {"PC": ("u->PC", 16)}
    mems = {"rom": "u->rom", "iram": "u->ram"}
    memw = {"rom": 16}
    entry = "cl_avr::exec_inst()"

    def opcodes(self):
        return [(n, [p]) for n, p in TAB.items()]

    def spec(self, S, label, ops):
        f = pattern(ops[0])[1]
        S["PC"] = S["PC"] + 1
        S.ticks = CYCLES.get(label, 2 if label[:2] in ("ld", "st") and label != "ldi" else 1)
        A = lambda v: z3.ZeroExt(16 - v.size(), v)
        rd = lambda a: S.rd("iram", a)
        B = lambda v, n: z3.BitVecVal(v, n)

        def wr(a, v):
            S.wr("iram", a, v)

        def fetch():
            v = S.rd("rom", S["PC"])
            S["PC"] = S["PC"] + 1
            return v

        def flags(**k):
            F = rd(B(SREG, 16))
            b = [bit(F, i) for i in range(8)]
            for n, x in k.items():
                i = dict(C=C, Z=Z, N=N, V=V, S=S_, H=H, T=T, I=I)[n]
                b[i] = b1(x) if isinstance(x, z3.BoolRef) else B(x, 1) if isinstance(x, int) else x
            if "S" not in k and ("N" in k or "V" in k):
                b[S_] = b[N] ^ b[V]
            wr(B(SREG, 16), cat(*reversed(b)))
        F = rd(B(SREG, 16))
        d = r = None
        if "d" in f:
            d = A(f["d"])
            n = f["d"].size()
            if label == "adiw" or label == "sbiw":
                d = 24 + 2 * d
            elif label == "movw":
                d = 2 * d
            elif n == 4 or n == 3:
                d = d + 16
        if "r" in f:
            r = A(f["r"])
            n = f["r"].size()
            if label == "movw":
                r = 2 * r
            elif n == 4 or n == 3:
                r = r + 16
        K = f.get("K")

        def ptr(n):
            return cat(rd(B(n + 1, 16)), rd(B(n, 16)))

        def setptr(n, v):
            wr(B(n, 16), z3.Extract(7, 0, v))
            wr(B(n + 1, 16), z3.Extract(15, 8, v))

        def sp():
            return ptr(SPL)

        def push(*vs):
            a = sp()
            for v in vs:
                # the stack does not lie over the pointer itself
                S.only.append(z3.And(a != SPL, a != SPH))
                wr(a, v)
                a = a - 1
            setptr(SPL, a)

        def pop(n):
            a = sp()
            out = []
            for i in range(n):
                a = a + 1
                out.append(rd(a))
            setptr(SPL, a)
            return out

        def call():
            pc = S["PC"]
            push(z3.Extract(7, 0, pc), z3.Extract(15, 8, pc))

        def sub(a, b, ci, keepz=False, store=True):
            w9 = z3.ZeroExt(1, a) - z3.ZeroExt(1, b) - z3.ZeroExt(8, ci)
            w5 = z3.ZeroExt(1, z3.Extract(3, 0, a)) - z3.ZeroExt(1, z3.Extract(3, 0, b)) - z3.ZeroExt(4, ci)
            x = z3.Extract(7, 0, w9)
            sa, sb, sr = bit(a, 7), bit(b, 7), bit(x, 7)
            if store:
                wr(d, x)
            z = b1(x == 0)
            flags(C=bit(w9, 8), H=bit(w5, 4), N=sr, V=(sa & ~sb & ~sr) | (~sa & sb & sr), Z=z & bit(F, Z) if keepz else z)

        def logic(v):
            wr(d, v)
            flags(N=bit(v, 7), V=0, Z=v == 0)

        def skip(c):
            w = S.rd("rom", S["PC"])
            two = z3.Or((w & 0xFE0F) == 0x9000, (w & 0xFE0F) == 0x9200, (w & 0xFE0C) == 0x940C)
            S.only.append(z3.Implies(c, z3.Or(*[matches(w, p) for p in list(TAB.values()) + OTHER])))
            S["PC"] = z3.If(c, S["PC"] + z3.If(two, B(2, 16), B(1, 16)), S["PC"])
            S.ticks = z3.If(c, z3.If(two, B(3, 32), B(2, 32)), B(1, 32))
        zero1 = B(0, 1)
        L = label
        if L in ("add", "adc"):
            a, b = rd(d), rd(r)
            ci = bit(F, C) if L == "adc" else zero1
            w9 = z3.ZeroExt(1, a) + z3.ZeroExt(1, b) + z3.ZeroExt(8, ci)
            w5 = z3.ZeroExt(1, z3.Extract(3, 0, a)) + z3.ZeroExt(1, z3.Extract(3, 0, b)) + z3.ZeroExt(4, ci)
            x = z3.Extract(7, 0, w9)
            sa, sb, sr = bit(a, 7), bit(b, 7), bit(x, 7)
            wr(d, x)
            flags(C=bit(w9, 8), H=bit(w5, 4), N=sr, V=(sa & sb & ~sr) | (~sa & ~sb & sr), Z=x == 0)
        elif L in ("sub", "sbc", "cp", "cpc"):
            sub(rd(d), rd(r), bit(F, C) if L[-1] == "c" else zero1, L[-1] == "c", L[0] == "s")
        elif L in ("subi", "sbci", "cpi"):
            sub(rd(d), K, bit(F, C) if L == "sbci" else zero1, L == "sbci", L != "cpi")
        elif L in ("adiw", "sbiw"):
            a = cat(rd(d + 1), rd(d))
            k = z3.ZeroExt(10, K)
            x = a + k if L == "adiw" else a - k
            wr(d, z3.Extract(7, 0, x))
            wr(d + 1, z3.Extract(15, 8, x))
            h, t = bit(a, 15), bit(x, 15)
            if L == "adiw":
                flags(V=~h & t, C=~t & h, N=t, Z=x == 0)
            else:
                flags(V=h & ~t, C=t & ~h, N=t, Z=x == 0)
        elif L in ("and", "or", "eor"):
            a, b = rd(d), rd(r)
            logic({"and": a & b, "or": a | b, "eor": a ^ b}[L])
        elif L == "andi":
            logic(rd(d) & K)
        elif L == "ori":
            logic(rd(d) | K)
        elif L == "com":
            x = ~rd(d)
            wr(d, x)
            flags(C=1, Z=x == 0, N=bit(x, 7), V=0)
        elif L == "neg":
            a = rd(d)
            x = -a
            wr(d, x)
            flags(C=x != 0, Z=x == 0, N=bit(x, 7), V=x == 0x80, H=bit(x, 3) | bit(a, 3))
        elif L in ("inc", "dec"):
            x = rd(d) + (1 if L == "inc" else -1)
            wr(d, x)
            flags(Z=x == 0, N=bit(x, 7), V=x == (0x80 if L == "inc" else 0x7F))
        elif L in ("mul", "muls", "mulsu", "fmul", "fmuls", "fmulsu"):
            a, b = rd(d), rd(r)
            x = (sx(a, 16) if L in ("muls", "mulsu", "fmuls", "fmulsu") else z3.ZeroExt(8, a)) * (sx(b, 16) if L in ("muls", "fmuls") else z3.ZeroExt(8, b))
            c = bit(x, 15)
            if L[0] == "f":
                x = x << 1
            wr(B(0, 16), z3.Extract(7, 0, x))
            wr(B(1, 16), z3.Extract(15, 8, x))
            flags(C=c, Z=x == 0)
        elif L == "rjmp":
            S["PC"] = S["PC"] + sx(f["k"], 16)
        elif L == "rcall":
            call()
            S["PC"] = S["PC"] + sx(f["k"], 16)
        elif L == "ijmp":
            S["PC"] = ptr(30)
        elif L == "icall":
            z = ptr(30)
            a = sp()
            S.only.append(z3.And(*[x != n for x in (a, a - 1) for n in (30, 31)]))
            call()
            S["PC"] = z
        elif L in ("jmp", "call"):
            k = fetch()
            if L == "call":
                call()
            S["PC"] = k
        elif L in ("ret", "reti"):
            h, l = pop(2)
            S["PC"] = cat(h, l)
            if L == "reti":
                flags(I=1)
        elif L == "cpse":
            skip(rd(d) == rd(r))
        elif L in ("sbrc", "sbrs", "sbic", "sbis"):
            v = rd(r) if L[2] == "r" else rd(A(f["A"]) + 0x20)
            b = z3.Extract(0, 0, z3.LShR(v, z3.ZeroExt(5, f["b"])))
            skip(b == (1 if L[-1] == "s" else 0))
        elif L in ("brbs", "brbc"):
            b = z3.Extract(0, 0, z3.LShR(F, z3.ZeroExt(5, f["s"])))
            S.ticks = z3.If(b == (1 if L == "brbs" else 0), B(2, 32), B(1, 32))
            S["PC"] = z3.If(b == (1 if L == "brbs" else 0), S["PC"] + sx(f["k"], 16), S["PC"])
        elif L == "mov":
            wr(d, rd(r))
        elif L == "movw":
            l, h = rd(r), rd(r + 1)
            wr(d, l)
            wr(d + 1, h)
        elif L == "ldi":
            wr(d, K)
        elif L == "lds":
            wr(d, rd(fetch()))
        elif L == "sts":
            wr(fetch(), rd(r))
        elif L[:2] in ("ld", "st") and L[2:] in ("X", "X+", "-X", "Y+", "-Y", "Z+", "-Z"):
            n = {"X": 26, "Y": 28, "Z": 30}[L[2:].strip("+-")]
            a = ptr(n)
            if L[2] == "-":
                a = a - 1
            if L[2:] != "X":
                # the result is undefined when the register, or the byte addressed, belongs to the pointer itself
                S.only.append(z3.And(d != n, d != n + 1, a != n, a != n + 1))
            if L[2] == "-":
                setptr(n, a)
            if L[:2] == "ld":
                wr(d, rd(a))
            else:
                wr(a, rd(d))
            if L[-1] == "+":
                setptr(n, a + 1)
        elif L in ("lddY", "lddZ", "stdY", "stdZ"):
            p = ptr(28 if L[3] == "Y" else 30)
            a = p + z3.ZeroExt(10, f["q"])
            S.only.append(z3.UGE(a, p))
            if L[0] == "l":
                wr(d, rd(a))
            else:
                wr(a, rd(d))
        elif L in ("lpm", "lpmZ", "lpmZ+"):
            z = ptr(30)
            w = S.rd("rom", z3.LShR(z, 1))
            v = z3.If(tst(z, 0), z3.Extract(15, 8, w), z3.Extract(7, 0, w))
            if L == "lpmZ+":
                S.only.append(z3.And(d != 30, d != 31))
            wr(B(0, 16) if L == "lpm" else d, v)
            if L == "lpmZ+":
                setptr(30, z + 1)
        elif L == "in":
            wr(d, rd(A(f["A"]) + 0x20))
        elif L == "out":
            wr(A(f["A"]) + 0x20, rd(r))
        elif L == "push":
            push(rd(d))
        elif L == "pop":
            wr(d, pop(1)[0])
        elif L in ("lsr", "ror", "asr"):
            a = rd(d)
            x = cat({"lsr": zero1, "ror": bit(F, C), "asr": bit(a, 7)}[L], z3.Extract(7, 1, a))
            wr(d, x)
            flags(C=bit(a, 0), Z=x == 0, N=bit(x, 7), V=bit(x, 7) ^ bit(a, 0))
        elif L == "swap":
            wr(d, z3.RotateLeft(rd(d), 4))
        elif L in ("bset", "bclr"):
            m = B(1, 8) << z3.ZeroExt(5, f["s"])
            wr(B(SREG, 16), F | m if L == "bset" else F & ~m)
        elif L in ("sbi", "cbi"):
            a = A(f["A"]) + 0x20
            m = B(1, 8) << z3.ZeroExt(5, f["b"])
            wr(a, rd(a) | m if L == "sbi" else rd(a) & ~m)
        elif L == "bst":
            flags(T=z3.Extract(0, 0, z3.LShR(rd(d), z3.ZeroExt(5, f["b"]))))
        elif L == "bld":
            m = B(1, 8) << z3.ZeroExt(5, f["b"])
            wr(d, z3.If(tst(F, T), rd(d) | m, rd(d) & ~m))
        elif L in ("nop", "wdr"):
            pass
        else:
            raise NotImplementedError(L)


CPUS = [AVR]
