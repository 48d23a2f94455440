"""Interrupt entry: what the machine saves, masks and where it continues, from the programming manuals of each CPU."""
import z3
from ..isa import ext, cat, bit, bv
from . import mos6502, m6809, m6800, i8048, stm8


def hi(v):
    return z3.Extract(15, 8, v)


def lo(v):
    return z3.Extract(7, 0, v)


def with_bits(v, **k):
    """v with bit iN replaced."""
    b = [bit(v, i) for i in range(v.size())]
    for n, x in k.items():
        b[int(n[1:])] = z3.BitVecVal(x, 1) if isinstance(x, int) else x
    return cat(*reversed(b))


class Irq:
    """Mixin. srcs: label -> (C++ expression of the interrupt source, level). tests: label -> C++ expression on p."""
    srcs = {}
    tests = {}
    helpers = ""
    pre_inst = {}          # label -> C++ statement executed before accepting
    insts = {}             # label -> bytes of an instruction that enters the service routine itself

    def __init__(self):
        super().__init__()
        o = "#include \"itsrccl.h\"\nstatic it_level *dv_il[8];\nstatic u8_t dv_n;\nextern \"C\" {\n"
        setup = ""
        o = o.replace("extern \"C\"", self.helpers + "extern \"C\"")
        for k, (l, (e, lv)) in enumerate(self.srcs.items()):
            setup += f"  dv_il[{k}]= new it_level({lv}, ({e})?(({e})->addr):0x8000u, u->PC, {e});\n"
            o += f"int dv_acc{k}({self.cls} *p) {{ {self.pre_inst.get(l, '')} return p->accept_it(dv_il[{k}]); }}\n"
        for k, (l, e) in enumerate(self.tests.items()):
            o += f"int dv_tst{k}({self.cls} *p) {{ return (int)({e}); }}\n"
        self.pre = "#define private public\n#define protected public\n" + o + "}\n"
        self.setup_extra = self.setup_extra + setup
        self.cname = self.name
        self.name = self.name + " interrupts"
        self.tag = "irq_" + self.cname

    def entry_of(self, label):
        if label in self.insts:
            return self.entry
        if label in self.tests:
            return f"dv_tst{list(self.tests).index(label)}"
        return f"dv_acc{list(self.srcs).index(label)}"

    def opcodes(self):
        return [(l, []) for l in list(self.srcs) + list(self.tests)] + [(l, list(o)) for l, o in self.insts.items()]

    def probes(self):
        p = super().probes()
        for k, (l, (e, lv)) in enumerate(self.srcs.items()):
            p[f"=il{k}"] = f"dv_il[{k}]"
            p[f"=src{k}"] = f"(void*)({e})"
        return p

    def contracts(self, M, ex):
        def push(ex, st, a):
            st.ghost["levels"] = st.ghost.get("levels", ()) + (a[1],)
            return 0

        def clear(ex, st, a):
            st.ghost["cleared"] = st.ghost.get("cleared", ()) + (a[0],)
            return 0

        def request(ex, st, a):
            st.ghost["requested"] = st.ghost.get("requested", ()) + (a[0],)
            return 0

        def delete(ex, st, a):
            st.ghost["deleted"] = st.ghost.get("deleted", ()) + (a[0],)
            return 0
        ex.contract(r"^cl_list::push\(", push)
        ex.contract(r"^cl_it_src::clear\(", clear)
        ex.contract(r"^cl_it_src::request\(", request)
        ex.contract(r"^(it_level|cl_base)::~", delete)
        super().contracts(M, ex)

    keeps_level = True     # the level goes to the list of levels in service
    clears = True          # acknowledges the source

    def extra_goals(self, M, s, S):
        g = s.ghost
        B = z3.BoolVal
        if S.label in self.tests:
            return [("no effect", B(not any(g.get(k) for k in ("levels", "cleared", "requested", "deleted"))))]
        if S.label in self.insts:
            return [("the level in service is recorded", B(len(g.get("levels", ())) == 1))]
        k = list(self.srcs).index(S.label)
        il, src = M.img.val[f"il{k}"], M.img.val[f"src{k}"]
        out = [("the level in service is recorded", B(g.get("levels", ()) == ((il,) if self.keeps_level else ())))]
        if self.clears and src:
            out.append(("the source is acknowledged", B(set(g.get("cleared", ())) == {src})))
        if S.label in self.pre_inst:
            out.append(("the instruction raises its interrupt", B(g.get("requested", ()) == (src,))))
        return out

    def spec(self, S, label, ops):
        if label in self.tests:
            S.ticks = 0
            S.ret = ext(self.test(S, label), 32)
            return
        S.ret = 0
        self.accept(S, label)


class Irq6502(Irq, mos6502.Mos6502):
    srcs = {"IRQ": ("u->src_irq", 1), "NMI": ("u->src_nmi", 2), "BRK": ("u->src_brk", 3)}
    tests = {"IRQ is enabled": "p->it_enabled() && p->src_irq->enabled()", "NMI is enabled": "p->src_nmi->is_nmi() && p->src_nmi->enabled()",
             "BRK is enabled": "p->src_brk->is_nmi() && p->src_brk->enabled()"}
    pre_inst = {"BRK": "p->exec_inst();"}
    free = {"i8d": "u->i8d"}
    regs = dict(mos6502.Mos6502.regs, SETB=("*(u8_t*)&u->set_b", 1))
    cmos = False
    VEC = {"IRQ": 0xFFFE, "NMI": 0xFFFA, "BRK": 0xFFFE}

    def opcodes(self):
        return [(l, [0] if l == "BRK" else []) for l, o in super().opcodes()]

    def test(self, S, label):
        return ~bit(S["CC"], mos6502.I) if label[0] == "I" else z3.BitVecVal(1, 1)

    def accept(self, S, label):
        brk = label == "BRK"
        if brk:
            S["PC"] = S["PC"] + 2
            S["SETB"] = z3.BitVecVal(1, 1)
        else:
            S.only.append(S["SETB"] == 0)        # exec_inst clears it; only BRK leaves it set

        def push(v):
            S.wr("rom", cat(z3.BitVecVal(1, 24), S["SP"]), v)
            S["SP"] = S["SP"] - 1
        push(hi(S["PC"]))
        push(lo(S["PC"]))
        saved = with_bits(S["CC"], i5=1, i4=int(brk))
        S.mem_mask = None
        push(saved)
        S.only.append(bit(S["CC"], mos6502.B) == 0)      # there is no B flag in the register
        S["CC"] = with_bits(S["CC"], i2=1, **({"i3": 0} if self.cmos else {}))
        S.care["CC"] = 0xDF
        a = self.VEC[label]
        S["PC"] = cat(S.rd("rom", z3.BitVecVal(a + 1, 32)), S.rd("rom", z3.BitVecVal(a, 32)))
        S.ticks = 7


class Irq65C02(Irq6502):
    name, cls = mos6502.Mos65C02.name, mos6502.Mos65C02.cls
    includes = mos6502.Mos65C02.includes
    args = mos6502.Mos65C02.args
    OPS = mos6502.Mos65C02.OPS
    cmos = True


class Irq6809(Irq, m6809.M6809):
    srcs = {"IRQ": ("u->src_irq", 1), "FIRQ": ("u->src_firq", 2), "NMI": ("u->src_nmi", 3)}
    regs = dict(m6809.M6809.regs, NMIEN=("*(u32_t*)u->src_nmi->ie_cell->data", 32))
    tests = {"NMI is enabled after LDS": "(p->exec_inst(), p->src_nmi->enabled())", "NMI is enabled": "p->src_nmi->enabled()",
             "IRQ is enabled": "p->it_enabled() && p->src_irq->enabled()", "FIRQ is enabled": "p->it_enabled() && p->src_firq->enabled()"}
    VEC = {"IRQ": 0xFFF8, "FIRQ": 0xFFF6, "NMI": 0xFFFC}

    def opcodes(self):
        return [(l, [0x10, 0xCE] if "LDS" in l else []) for l, o in super().opcodes()]

    def test(self, S, label):
        if label == "NMI is enabled":
            return bit(S["NMIEN"], 0)
        if label == "NMI is enabled after LDS":
            v = cat(S.rd("rom", ext(S["PC"] + 2, 32)), S.rd("rom", ext(S["PC"] + 3, 32)))
            S["S"], S["PC"], S["NMIEN"] = v, S["PC"] + 4, z3.BitVecVal(1, 32)
            S.care["P"] = 0xF1
            S.ticks = 4
            return z3.BitVecVal(1, 1)
        return ~bit(S["P"], m6809.FF if label[0] == "F" else m6809.FI)

    def accept(self, S, label):
        entire = label != "FIRQ"
        cc = with_bits(S["P"], i7=int(entire))
        cwai = S["CWAI"] == 1

        def stacked(T):
            def push(v):
                if v.size() == 16:
                    push(lo(v))
                    push(hi(v))
                    return
                T["S"] = T["S"] - 1
                T.wr("rom", ext(T["S"], 32), v)
            for r in ["PC"] + (["U", "Y", "X", "DP", "B", "A"] if entire else []):
                push(T[r])
            push(cc)
        S.fork_if(z3.Not(cwai), stacked)
        S.care["P"] = z3.If(cwai, z3.BitVecVal(0x7F, 8), z3.BitVecVal(0xFF, 8))     # the entire state is on the stack already, whatever E says
        S["CWAI"] = z3.BitVecVal(0, 1)
        S["P"] = with_bits(cc, i4=1, **({} if label == "IRQ" else {"i6": 1}))
        a = self.VEC[label]
        S["PC"] = cat(S.rd("rom", z3.BitVecVal(a, 32)), S.rd("rom", z3.BitVecVal(a + 1, 32)))
        S.ticks = z3.If(cwai, z3.BitVecVal(7, 32), z3.BitVecVal(19 if entire else 10, 32))


class Irq6800(Irq, m6800.M6800):
    srcs = {"IRQ": ("u->src_irq", 1), "NMI": ("u->src_nmi", 2), "SWI": ("u->src_swi", 3)}
    tests = {"IRQ is enabled": "p->it_enabled() && p->src_irq->enabled()", "NMI is enabled": "p->it_enabled() && p->src_nmi->enabled()",
             "SWI is enabled": "p->it_enabled() && p->src_swi->enabled()"}
    VEC = {"IRQ": 0xFFF8, "NMI": 0xFFFC, "SWI": 0xFFFA}
    pre_inst = {"SWI": "p->exec_inst();"}

    def opcodes(self):
        return [(l, [0x3F] if l == "SWI" else []) for l, o in super().opcodes()]

    def test(self, S, label):
        return ~bit(S["P"], 4) if label[0] == "I" else z3.BitVecVal(1, 1)

    def accept(self, S, label):
        wai = S["WAI"] == 1
        if label == "SWI":
            S.only.append(z3.Not(wai))
            S["PC"] = S["PC"] + 1

        def stacked(T):
            def push(v):
                if v.size() == 16:
                    push(lo(v))
                    push(hi(v))
                    return
                T.wr("rom", ext(T["SP"], 32), v)
                T["SP"] = T["SP"] - 1
            for r in ["PC"] + (["Y"] if self.gen == 2 else []) + ["X", "A", "B"]:
                push(T[r])
            push(T["P"])
        S.fork_if(z3.Not(wai), stacked)
        S["WAI"] = z3.BitVecVal(0, 1)
        S["P"] = with_bits(S["P"], i4=1)
        a = self.VEC[label]
        S["PC"] = cat(S.rd("rom", z3.BitVecVal(a, 32)), S.rd("rom", z3.BitVecVal(a + 1, 32)))
        S.ticks = None
        if self.gen == 2:
            S.care["CI"] = 0


class Irq6801(Irq6800):
    name, cls, args, gen = m6800.M6801.name, m6800.M6801.cls, m6800.M6801.args, 1


class IrqHC11(Irq6800):
    sim, name, cls, args, gen = "m68hc11", m6800.HC11.name, m6800.HC11.cls, m6800.HC11.args, 2
    includes, cpus, regs = m6800.HC11.includes, m6800.HC11.cpus, m6800.HC11.regs
    VEC = {"IRQ": 0xFFF2, "NMI": 0xFFF4, "SWI": 0xFFF6}      # NMI: the XIRQ pin


class Irq8048(Irq, i8048.I8048):
    srcs = {"interrupt": ("(cl_it_src*)0", 1)}
    tests = {"interrupts are enabled": "p->it_enabled()", "INT is enabled": "dv_at(p, 3)->enabled()", "INT is pending": "dv_at(p, 3)->pending()",
             "timer interrupt is enabled": "dv_at(p, 7)->enabled()", "timer interrupt is pending": "dv_at(p, 7)->pending()"}
    helpers = """static cl_it_src *dv_at(cl_i8048 *p, t_addr a)
{ for (int i= 0; i < p->it_sources->count; i++)
  { cl_it_src *s= (cl_it_src*)(p->it_sources->at(i)); if (s->addr == a) return s; }
  return 0; }
"""
    regs = dict(i8048.I8048.regs, ILA=("dv_il[0]->addr", 32))
    keeps_level = False

    def test(self, S, label):
        return {"interrupts are enabled": ~S["ISR"], "INT is enabled": S["EX"], "INT is pending": ~bit(S["PINS"], 2),
                "timer interrupt is enabled": S["IE"], "timer interrupt is pending": S["IRQ"]}[label]

    def accept(self, S, label):
        S.only.append(S["BANK"] == bit(S["P"], 4))
        S.only.append(z3.ULT(S["ILA"], 0x1000))
        S.only.append(bit(S["P"], 3) == 1)
        sp = z3.Extract(2, 0, S["P"])
        a = 8 + 2 * ext(sp, 32)
        S.wr("iram", a, lo(S["PC"]))
        S.wr("iram", a + 1, cat(z3.Extract(7, 4, S["P"]), z3.Extract(11, 8, S["PC"])))
        S["P"] = cat(z3.Extract(7, 3, S["P"]), sp + 1)
        S["ISR"] = z3.BitVecVal(1, 1)
        S["PC"] = z3.Extract(11, 0, S["ILA"])
        S.ticks = None


class IrqSTM8(Irq, stm8.STM8):
    srcs = {f"level {k}": ("(cl_it_src*)0", k) for k in range(4)}
    insts = {"TRAP": [0x83]}
    tests = {"interrupts are enabled": "p->it_enabled()", "main level": "p->priority_main()", "level of interrupt n": "p->priority_of(dv_n)",
             "sources off their place in the vector table": "dv_off(p)"}
    helpers = """static int dv_off(cl_stm8 *p)
{ int n= 0; for (int i= 0; i < p->it_sources->count; i++)
  { cl_it_src *s= (cl_it_src*)(p->it_sources->at(i)); if (s->nuof >= 0 && s->addr != 0x8008u + 4u*s->nuof) n++; }
  return n; }
"""
    regs = dict(stm8.STM8.regs, N=("dv_n", 8), **{f"ILA{k}": (f"dv_il[{k}]->addr", 32) for k in range(4)})
    I = {0: (1, 0), 1: (0, 1), 2: (0, 0), 3: (1, 1)}

    def test(self, S, label):
        if label[0] == "s":
            return z3.BitVecVal(0, 32)
        i1, i0 = bit(S["CC"], stm8.FI1), bit(S["CC"], stm8.FI0)
        if label == "level of interrupt n":
            n = S["N"]
            S.only.append(z3.ULT(n, 32))
            sh = cat(z3.BitVecVal(0, 5), z3.Extract(1, 0, n), z3.BitVecVal(0, 1))
            v = z3.LShR(S.rd("rom", z3.BitVecVal(0x7F70, 32) + ext(z3.LShR(n, 2), 32)), sh)      # ITC_SPR1..8
            i1, i0 = bit(v, 1), bit(v, 0)
        if label != "interrupts are enabled":
            v = z3.BitVecVal(0, 32)
            for k, (a, b) in self.I.items():
                v = z3.If(z3.And(i1 == a, i0 == b), z3.BitVecVal(k, 32), v)
            return v
        return ~(i1 & i0)

    def accept(self, S, label):
        k = 3 if label == "TRAP" else int(label[-1])
        if label == "TRAP":
            S.only.append(z3.ULT(S["PC"], 0xFFF0))
            S["PC"] = S["PC"] + 1
        else:
            S.only.append(z3.ULT(S[f"ILA{k}"], 0x1000000))
        S.only.append(z3.And(z3.UGE(S["SP"], stm8.SP_LIMIT + 16), z3.ULE(S["SP"], stm8.SP_TOP)))
        S.care["CC"] = 0xBF

        def push(v):
            S.wr("rom", ext(S["SP"], 32), v)
            S["SP"] = S["SP"] - 1
        pc = S["PC"]
        for v in (lo(pc), z3.Extract(15, 8, pc), z3.Extract(23, 16, pc), lo(S["Y"]), hi(S["Y"]), lo(S["X"]), hi(S["X"]), S["A"], S["CC"]):
            push(v)
        i1, i0 = self.I[k]
        S["CC"] = with_bits(S["CC"], i5=i1, i3=i0)
        S["PC"] = z3.BitVecVal(0x8004, 24) if label == "TRAP" else z3.Extract(23, 0, S[f"ILA{k}"])
        S.ticks = None


CPUS = [Irq6502, Irq65C02, Irq6809, Irq6800, Irq6801, IrqHC11, Irq8048, IrqSTM8]
