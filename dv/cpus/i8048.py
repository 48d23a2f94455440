"""Intel MCS-48 (8050: 4 K of program memory, 256 bytes of RAM): the MCS-48 family user's manual."""
import z3
from .. import memview
from ..isa import CPU, ext, sx, cat, bit, tst, b1, bn

FC, FA, F0, BS = 7, 6, 5, 4


def cycles(op):
    """Machine cycles of 5 states (MCS-48 user's manual)."""
    lo = op & 15
    if lo in (4, 3) or lo == 2 and op & 16 or op in (0x16, 0x26, 0x36, 0x46, 0x56, 0x76, 0x86, 0x96, 0xB6, 0xC6, 0xE6, 0xF6):   # jumps, calls, returns, immediates, table reads
        return 2
    if op & 0xF8 in (0xB8, 0xE8) or op in (0xB0, 0xB1):       # MOV Rr,#  DJNZ  MOV @Rr,#
        return 2
    if op in (0x02, 0x08, 0x09, 0x0A, 0x39, 0x3A, 0x88, 0x89, 0x8A, 0x98, 0x99, 0x9A, 0x80, 0x81, 0x90, 0x91):   # ports and MOVX
        return 2
    return 1


class I8048(CPU):
    sim, name, cls = "i8048", "i8050", "cl_i8048"
    includes = ["simi8048cl.h", "i8048cl.h"]
    pre = '#define private public\n#define protected public\n'
    cpus = "cpus_i8048"
    args = ["-t", "I8050"]
    regs = {"A": ("u->rA", 8), "P": ("u->psw", 8), "PC": ("u->PC", 12), "MB": ("u->mb", 1), "F1": ("u->flagF1", 1),
            "T": ("u->timer->tmr", 8), "TF": ("*(u8_t*)&u->timer->timer_flag", 1), "MODE": ("*(int*)&u->timer->mode", 2), "IE": ("u->timer->int_enabled", 1),
            "IRQ": ("u->timer->int_request", 1), "OVF": ("*(u8_t*)&u->timer->overflow_flag", 1), "EX": ("u->ints->ene", 1), "ISR": ("*(u8_t*)&u->in_isr", 1),
            "PINS": ("((cl_i8020_cpu*)u->cpu)->ipins", 4),
            "BUS": ("*(u32_t*)u->bus->out_ff->data", 8), "BUSIN": ("*(u32_t*)u->bus->cfg_cell(tbus_in)->data", 8),
            "P1": ("*(u8_t*)u->p1->pcell->data", 8), "P2": ("*(u8_t*)u->p2->pcell->data", 8),
            "PIN1": ("*(u32_t*)u->p1->cfg_cell(port_pin)->data", 8), "PIN2": ("*(u32_t*)u->p2->cfg_cell(port_pin)->data", 8),
            "BANK": ("((cl_banker*)u->regs->decoders->at(0))->bank", 1)}
    free = {"pre": "u->timer->pre", "odr1": "*(u32_t*)u->p1->cfg_cell(port_odr)->data", "odr2": "*(u32_t*)u->p2->cfg_cell(port_odr)->data",
            "tm1": "*(u32_t*)u->timer->cfg_cell(tcfg_mode)->data", "tm2": "*(u32_t*)u->timer->cfg_cell(tcfg_tmr)->data",
            "ct0": "*(u32_t*)u->cpu->cfg_cell(i8020cpu_t0)->data", "ct1": "*(u32_t*)u->cpu->cfg_cell(i8020cpu_t1)->data"}
    mems = {"rom": "u->rom", "iram": "u->iram", "xram": "u->xram"}
    entry = "cl_i8020::exec_inst()"
    assumptions = ["the register cells R0-R7 are iram[n] or iram[24+n] as the banker last selected (cl_banker::activate under the contract proved in C03), which is PSW.BS at the start of an instruction"]

    def add_views(self, M):
        super().add_views(M)
        iram = M.mem["iram"]

        def regs_alias(st, idx):
            b = M.ex.ld(st, M.img.addr["r.BANK"], 4)
            b = ext(z3.BitVecVal(b, 32) if isinstance(b, int) else b, 32)
            return iram, z3.simplify(b * 24 + (z3.BitVecVal(idx, 32) if isinstance(idx, int) else idx))
        memview.add_alias(M.ex, "regs", M.img.val["as.regs"], regs_alias, 8)

    def probes(self):
        p = super().probes()
        p["=as.regs"] = "(cl_address_space*)u->regs"
        return p

    def contracts(self, M, ex):
        def activate(ex, st, a):
            p = ex.ld(st, M.img.addr["r.P"], 1)
            p = z3.BitVecVal(p, 8) if isinstance(p, int) else p
            ex._put(st, M.img.addr["r.BANK"], 4, z3.simplify(z3.ZeroExt(31, bit(p, BS))))
            return 1
        ex.contract(r"^cl_banker::activate\(", activate)

    def opcodes(self):
        skip = {0x01, 0x06, 0x0B, 0x22, 0x33, 0x38, 0x3B, 0x63, 0x66, 0x73, 0x82, 0x87, 0x8B, 0x9B, 0xA2, 0xA6, 0xB7, 0xC0, 0xC1, 0xC2, 0xC3, 0xD6, 0xE0, 0xE1, 0xE2, 0xF3}
        return [(f"{o:02x}", [o]) for o in range(256)
                if o not in skip and o & 0xFC not in (0x0C, 0x3C, 0x8C, 0x9C)]      # MOVD, ORLD, ANLD: the 8243 expander

    def spec(self, S, label, ops):
        op = ops[0]
        hi, lo = op >> 4, op & 15
        S.ticks = 5 * cycles(op)
        S.only.append(S["BANK"] == bit(S["P"], BS))
        S.only.append(bit(S["P"], 3) == 1)
        S.only.append(S["MODE"] != 3)

        def inc_pc():
            S["PC"] = cat(bit(S["PC"], 11), z3.Extract(10, 0, S["PC"]) + 1)
        inc_pc()
        A, C = S["A"], bit(S["P"], FC)

        def fetch():
            v = S.rd("rom", S["PC"])
            inc_pc()
            return v

        def rn(n):
            return ext(bit(S["P"], BS), 32) * 24 + n

        def r(n):
            return S.rd("iram", rn(n))

        def ri():
            return ext(r(op & 1), 32)

        def setp(**k):
            b = [bit(S["P"], i) for i in range(8)]
            for n, x in k.items():
                b[dict(C=FC, A=FA, F=F0, B=BS)[n]] = b1(x) if isinstance(x, z3.BoolRef) else z3.BitVecVal(x, 1) if isinstance(x, int) else x
            S["P"] = cat(*reversed(b))
            S["BANK"] = bit(S["P"], BS)

        def page_jump(a):
            S["PC"] = cat(z3.Extract(11, 8, S["PC"]), a)

        def jump_if(c):
            S.only.append(z3.Extract(7, 0, S["PC"]) != 0xFF)     # the address byte is not the last one of its page
            a = fetch()
            S.fork_if(c, lambda T: T.__setitem__("PC", cat(z3.Extract(11, 8, T["PC"]), a)))

        def a12():
            lo8 = fetch()
            return cat(S["MB"] & ~S["ISR"], z3.BitVecVal(op >> 5, 3), lo8)

        def add(v, ci):
            r9 = z3.ZeroExt(1, A) + z3.ZeroExt(1, v) + z3.ZeroExt(8, ci)
            r5 = z3.ZeroExt(1, z3.Extract(3, 0, A)) + z3.ZeroExt(1, z3.Extract(3, 0, v)) + z3.ZeroExt(4, ci)
            S["A"] = z3.Extract(7, 0, r9)
            setp(C=bit(r9, 8), A=bit(r5, 4))

        def sp():
            return z3.Extract(2, 0, S["P"])

        def set_sp(v):
            S["P"] = cat(z3.Extract(7, 3, S["P"]), v)

        def pop():
            set_sp(sp() - 1)
            a = 8 + 2 * ext(sp(), 32)
            h = S.rd("iram", a + 1)
            S["PC"] = cat(z3.Extract(3, 0, h), S.rd("iram", a))
            return h

        zero = z3.BitVecVal(0, 1)
        if lo >= 8 and hi in (1, 2, 4, 5, 6, 7, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF):
            n = op & 7
            if hi == 1:
                S.wr("iram", rn(n), r(n) + 1)
            elif hi == 2:
                S["A"] = r(n)
                S.wr("iram", rn(n), A)
            elif hi == 4:
                S["A"] = A | r(n)
            elif hi == 5:
                S["A"] = A & r(n)
            elif hi in (6, 7):
                add(r(n), C if hi == 7 else zero)
            elif hi == 0xA:
                S.wr("iram", rn(n), A)
            elif hi == 0xB:
                S.wr("iram", rn(n), fetch())
            elif hi == 0xC:
                S.wr("iram", rn(n), r(n) - 1)
            elif hi == 0xD:
                S["A"] = A ^ r(n)
            elif hi == 0xE:
                v = z3.simplify(r(n) - 1)
                S.wr("iram", rn(n), v)
                jump_if(v != 0)
            elif hi == 0xF:
                S["A"] = r(n)
        elif lo in (0, 1) and hi in (1, 2, 3, 4, 5, 6, 7, 0xA, 0xB, 0xD, 0xF):
            a = ri()
            v = S.rd("iram", a)
            if hi == 1:
                S.wr("iram", a, v + 1)
            elif hi == 2:
                S["A"] = v
                S.wr("iram", a, A)
            elif hi == 3:
                S["A"] = cat(z3.Extract(7, 4, A), z3.Extract(3, 0, v))
                S.wr("iram", a, cat(z3.Extract(7, 4, v), z3.Extract(3, 0, A)))
            elif hi == 4:
                S["A"] = A | v
            elif hi == 5:
                S["A"] = A & v
            elif hi in (6, 7):
                add(v, C if hi == 7 else zero)
            elif hi == 0xA:
                S.wr("iram", a, A)
            elif hi == 0xB:
                S.wr("iram", a, fetch())
            elif hi == 0xD:
                S["A"] = A ^ v
            elif hi == 0xF:
                S["A"] = v
        elif op in (0x03, 0x13):
            add(fetch(), C if hi else zero)
        elif op == 0x43:
            S["A"] = A | fetch()
        elif op == 0x53:
            S["A"] = A & fetch()
        elif op == 0xD3:
            S["A"] = A ^ fetch()
        elif op == 0x23:
            S["A"] = fetch()
        elif lo == 4:
            a = a12()
            if hi & 1:
                at = 8 + 2 * ext(sp(), 32)
                S.wr("iram", at, z3.Extract(7, 0, S["PC"]))
                S.wr("iram", at + 1, cat(z3.Extract(7, 4, S["P"]), z3.Extract(11, 8, S["PC"])))
                set_sp(sp() + 1)
            S["PC"] = a
        elif lo == 2 and hi & 1:
            jump_if(bit(A, hi >> 1) == 1)
        elif op in (0x16, 0x26, 0x36, 0x46, 0x56, 0x76, 0x86, 0x96, 0xB6, 0xC6, 0xE6, 0xF6):
            p = S["PINS"]
            jump_if({0x16: S["TF"] == 1, 0x26: bit(p, 0) == 0, 0x36: bit(p, 0) == 1, 0x46: bit(p, 1) == 0, 0x56: bit(p, 1) == 1, 0x76: S["F1"] == 1,
                     0x86: bit(p, 2) == 0, 0x96: A != 0, 0xB6: bit(S["P"], F0) == 1, 0xC6: A == 0, 0xE6: C == 0, 0xF6: C == 1}[op])
            if op == 0x16:
                S["TF"] = 0
        elif op in (0x00, 0x75):
            pass
        elif op == 0x02:
            S["BUS"] = A
        elif op == 0x08:
            S["A"] = S["BUSIN"]
        elif op in (0x88, 0x98):
            v = fetch()
            S["BUS"] = S["BUS"] | v if op == 0x88 else S["BUS"] & v
        elif op in (0x89, 0x99, 0x8A, 0x9A):
            v = fetch()
            n = "P1" if lo == 9 else "P2"
            S[n] = S[n] | v if hi == 8 else S[n] & v
        elif op in (0x39, 0x3A):
            S["P1" if op == 0x39 else "P2"] = A
        elif op in (0x09, 0x0A):
            S["A"] = S["P1"] & S["PIN1"] if op == 9 else S["P2"] & S["PIN2"]
        elif op in (0x05, 0x15):
            S["EX"] = int(op == 5)
        elif op == 0x25:
            S["IE"] = 1
        elif op == 0x35:
            S["IE"] = 0
            S["IRQ"] = 0
            S["OVF"] = 0
        elif op == 0x07:
            S["A"] = A - 1
        elif op == 0x17:
            S["A"] = A + 1
        elif op == 0x27:
            S["A"] = 0
        elif op == 0x37:
            S["A"] = ~A
        elif op == 0x47:
            S["A"] = cat(z3.Extract(3, 0, A), z3.Extract(7, 4, A))
        elif op == 0x57:
            adj = z3.Or(z3.UGT(z3.Extract(3, 0, A), 9), bit(S["P"], FA) == 1)
            t = z3.ZeroExt(1, A) + z3.If(adj, z3.BitVecVal(6, 9), z3.BitVecVal(0, 9))
            c = z3.Or(bit(t, 8) == 1, C == 1)
            up = z3.Or(z3.UGT(z3.Extract(7, 4, t), 9), c)
            S["A"] = z3.Extract(7, 0, t) + z3.If(up, z3.BitVecVal(0x60, 8), z3.BitVecVal(0, 8))
            setp(C=up)
        elif op in (0x67, 0x77):
            S["A"] = cat(C if op == 0x67 else bit(A, 0), z3.Extract(7, 1, A))
            if op == 0x67:
                setp(C=bit(A, 0))
        elif op in (0xE7, 0xF7):
            S["A"] = cat(z3.Extract(6, 0, A), C if op == 0xF7 else bit(A, 7))
            if op == 0xF7:
                setp(C=bit(A, 7))
        elif op == 0x97:
            setp(C=0)
        elif op == 0xA7:
            setp(C=~C)
        elif op == 0x85:
            setp(F=0)
        elif op == 0x95:
            setp(F=~bit(S["P"], F0))
        elif op == 0xA5:
            S["F1"] = 0
        elif op == 0xB5:
            S["F1"] = ~S["F1"]
        elif op == 0x42:
            S["A"] = S["T"]
        elif op == 0x62:
            S["T"] = A
        elif op in (0x45, 0x55, 0x65):
            S["MODE"] = {0x45: 1, 0x55: 2, 0x65: 0}[op]
        elif op in (0x80, 0x81):
            S["A"] = S.rd("xram", ri())
            S.care["BUS"] = 0
        elif op in (0x90, 0x91):
            S.wr("xram", ri(), A)
            S.care["BUS"] = 0
        elif op == 0x83:
            pop()
        elif op == 0x93:
            h = pop()
            S["P"] = cat(z3.Extract(7, 4, h), z3.Extract(3, 0, S["P"]))
            S["BANK"] = bit(h, BS)
            S["ISR"] = 0
        elif op == 0xA3:
            S["A"] = S.rd("rom", cat(z3.Extract(11, 8, S["PC"]), A))
        elif op == 0xE3:
            S.only.append(bit(S["PC"], 11) == 0)
            S["A"] = S.rd("rom", cat(z3.BitVecVal(3, 4), A))
        elif op == 0xB3:
            page_jump(S.rd("rom", cat(z3.Extract(11, 8, S["PC"]), A)))
        elif op in (0xC5, 0xD5):
            setp(B=int(op == 0xD5))
        elif op in (0xE5, 0xF5):
            S["MB"] = int(op == 0xF5)
        elif op == 0xC7:
            S["A"] = S["P"]
        elif op == 0xD7:
            S["P"] = A | 8
            S["BANK"] = bit(A, BS)
        else:
            raise NotImplementedError(label)


CPUS = [I8048]
