"""C12: the serial port of the MCS-51 takes the documented time for a frame."""
import z3

from ..fn import Machine, Unit, Loop, callee
from ..sym import bv, boolv, fresh, norm
from .memory import args
from .timers51 import sfr_reset

S, H = "cl_serial", "cl_serial_hw"
FS = ["sfr", "bas", "t2_rec", "t2_tr", "sbuf", "pcon", "scon", "scon_bits", "s_rec_t1", "s_tr_t1", "s_rec_tick", "s_tr_tick", "_mode", "_bmREN", "_bmSMOD", "_bits", "_divby"]
FH = ["s_in", "s_out", "s_sending", "s_receiving", "s_rec_bit", "s_tr_bit", "input_avail"]
FIELDS = [(S, f) for f in FS] + [(H, f) for f in FH] + [("cl_hw", f) for f in ("category", "id", "uc", "io")] + [("cl_memory_cell", f) for f in ("data", "mask", "width", "flags", "ops")] + [("cl_51core", f) for f in ("sfr", "prev_p1", "prev_p3")]
SCON, REN, SMOD, TI, RI = 0x98, 0x10, 0x80, 1, 0
RCLK, TCLK = 0x20, 0x10
FRAME = {0: 8, 1: 10, 2: 11, 3: 11}
LIM = 1 << 20
B32 = lambda v: z3.BitVecVal(v, 32)
B8 = lambda v: z3.BitVecVal(v, 8)


class Mach(Machine):
    parents = {S: H, H: "cl_hw", "cl_cell8": "cl_memory_cell", "cl_bit_cell8": "cl_memory_cell", "cl_serial_io": "cl_hw_io", "cl_timer0": "cl_hw", "cl_timer1": "cl_timer0", "cl_timer2": "cl_timer0"}


def machine():
    return Mach(sim="s51", includes=["sim51cl.h", "uc51cl.h", "uc52cl.h", "regs51.h", "types51.h", "serialcl.h", "timer0cl.h", "timer1cl.h", "timer2cl.h"], fields=FIELDS,
                classes=[S, H, "cl_timer0", "cl_timer1", "cl_timer2", "cl_hw", "cl_serial_io", "cl_hw_io", "cl_memory_cell", "cl_cell8", "cl_bit_cell8", "cl_address_space", "cl_51core", "cl_uc52", "cl_uc", "cl_f"], tag="serial51",
                probes={"=RO": "CELL_READ_ONLY", "=TIMER": "HW_TIMER", "=UART": "HW_UART", "=OVF": "EV_OVERFLOW", "=T2MODE": "EV_T2_MODE_CHANGED", "=often": "serconf_check_often"})


def divider(mode, smod):
    """The bit time of the mode: clocks in modes 0 and 2, overflows of timer 1 in modes 1 and 3 (smod: formula or bool)."""
    if mode == 0:
        return B32(12)
    a, b = (32, 64) if mode == 2 else (16, 32)
    return z3.If(smod, B32(a), B32(b))


def units(M):
    U = []
    V = M.img.val

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))
    w = lambda f: 8 * (M._f[S][f][1] if f in M._f[S] else M._f[H][f][1])
    fl = lambda c, f, st=None: bv(c.fld("ser", f, st), w(f))
    on = lambda c, f: fl(c, f) != 0

    def byte(c, nm):
        sa = c.obj(nm, nbytes=8)
        c.st.ov = {a: e for a, e in c.st.ov.items() if not sa <= a < sa + 8}
        c.v0[nm] = c.var(nm, 8)
        c.st.ov[sa] = (1, c.v0[nm])
        for i in range(1, 8):
            c.st.ov[sa + i] = (1, c.var(f"{nm}+{i}", 8))
        fg = c.var(nm + ".flags", 8)
        c.assume(fg & V["RO"] == 0)
        c.slot[nm] = sa
        return c.obj(nm + ".cell", "cl_cell8", data=sa, ops=0, mask=0xff, width=8, flags=fg)

    def serial(c, mode=None):
        c.slot, c.v0, c.st.ghost["w"] = {}, {}, []
        c.cells = {n: byte(c, n) for n in ("sbuf", "scon", "pcon")}
        c.bits = [c.obj(f"bit{i}.cell", "cl_bit_cell8") for i in range(8)]
        c.bas, c.sfr, c.uc = c.obj("bas", "cl_address_space"), c.obj("sfr", "cl_address_space"), c.obj("uc", "cl_uc52")
        c.io = c.obj("io", "cl_serial_io")
        kw = dict(bas=c.bas, sfr=c.sfr, sbuf=c.cells["sbuf"], scon=c.cells["scon"], pcon=c.cells["pcon"], uc=c.uc, io=c.io)
        c.t = c.obj("ser", S, **kw)
        sb = c.addr("ser", "scon_bits")
        c.st.ov = {a: e for a, e in c.st.ov.items() if not sb <= a < sb + 64}
        for i in range(8):
            c.st.ov[sb + 8 * i] = (8, c.bits[i])
        for b in ("t2_rec", "t2_tr", "s_sending", "s_receiving", "input_avail"):
            c.assume(z3.ULE(fl(c, b), 1))
        if mode is not None:
            c.ex._put(c.st, c.addr("ser", "_mode"), 1, mode)
            c.mode = mode
            c.assume(*[f for _, f in shape(c, c.st, mode)])
        return c.t

    def shape(c, st, mode):
        """What write() keeps for tick(): frame and bit time belong to the mode and to SMOD."""
        smod = bv(c.fld("ser", "_bmSMOD", st), 8) != 0
        return [("the frame of the mode", bv(c.fld("ser", "_bits", st), 8) == FRAME[mode]), ("the bit time of the mode", bv(c.fld("ser", "_divby", st), 8) == z3.Extract(7, 0, divider(mode, smod)))]

    # ------------------------------------------------------------ the registers
    def owned(c, st, this, cell, to):
        k = norm(cell)
        if isinstance(k, int) and k in c.bits:
            c.ex._put(st, to, 4, c.ba)
            return 1
        return 0
    OWN = callee(r"cl_\w*::is_owned\(", "is_owned", owned, 1)
    CONF = callee(r"cl_\w*::conf\(", "conf", None, 32)

    def wr(which, mode):
        def pre(c):
            serial(c, mode)
            c.val = c.var("value", 32)
            c.assume(z3.ULT(c.val, 2 if which == "bit" else 256))
            vp = c.obj("val", nbytes=8)
            c.st.ov = {a: e for a, e in c.st.ov.items() if not vp <= a < vp + 8}
            c.st.ov[vp] = (4, c.val)
            c.ba = c.var("bit", 32)
            c.assume(z3.UGE(c.ba, SCON), z3.ULT(c.ba, SCON + 8))
            cell = c.bits[0] if which == "bit" else c.cells.get(which) or c.obj("other.cell", "cl_cell8")
            return args(c, c.t, cell, vp)
        return pre
    v8 = lambda c: z3.Extract(7, 0, c.val)
    FN = S + "::write(cl_memory_cell*, unsigned int*)"

    def post_ctl(c, e, which):
        n = v8(c)
        if which == "bit":
            m = B8(1) << z3.Extract(7, 0, c.ba - SCON)
            n = z3.If(c.val != 0, c.v0["scon"] | m, c.v0["scon"] & ~m)
        md = z3.LShR(n, 6)
        e.set("ser", "_mode", md)
        for f in ("_bmREN", "_bits", "_divby"):
            e.any("ser", f)
        e.goal("REN is taken from SCON", (bv(e.fld("ser", "_bmREN"), 8) != 0) == (n & REN != 0))
        for k in range(4):
            for nm, f in shape(c, e.st, k):
                e.goal(f"{nm} {k}", z3.Implies(md == k, f))
    for which in ("scon", "bit"):
        for mode in range(4) if which == "bit" else (0, 2):
            u(f"write.{which} in mode {mode}", FN, wr(which, mode), lambda c, e, which=which: post_ctl(c, e, which), [OWN, CONF])

    def post_pcon(c, e, mode):
        for f in ("_bmSMOD", "_divby"):
            e.any("ser", f)
        e.goal("SMOD is taken from PCON", (bv(e.fld("ser", "_bmSMOD"), 8) != 0) == (v8(c) & SMOD != 0))
        for nm, f in shape(c, e.st, mode):
            e.goal(nm, f)

    def post_sbuf(c, e):
        e.set("ser", "s_out", v8(c))
        e.set("ser", "s_sending", B8(1))
        for f in ("s_tr_bit", "s_tr_tick", "s_tr_t1"):
            e.set("ser", f, B32(0))
    for mode in range(4):
        u(f"write.pcon in mode {mode}", FN, wr("pcon", mode), lambda c, e, mode=mode: post_pcon(c, e, mode), [OWN, CONF])
    u("write.sbuf", FN, wr("sbuf", 1), post_sbuf, [OWN, CONF])
    u("write.other", FN, wr("other", 1), lambda c, e: None, [OWN, CONF])
    SET = callee(r"cl_\w*::cfg_set\(", "cfg_set", None, 0)
    for which in ("sbuf", "scon", "pcon"):
        def post_read(c, e, which=which):
            e.ret_is(z3.ZeroExt(24, fl(c, "s_in") if which == "sbuf" else c.v0[which]))
        u(f"read.{which}", S + "::read(cl_memory_cell*)", lambda c, which=which: (serial(c), args(c, c.t, c.cells[which]))[1], post_read, [SET, CONF])

    # ------------------------------------------------------------ a tick
    def wrote(c, st, this, v):
        k = norm(this)
        st.ghost["w"] = st.ghost["w"] + [(c.bits.index(k) if k in c.bits else k, bv(v, 32))]
        return v

    def sent(c, st, this, buf, n):
        st.ghost["out"] = st.ghost.get("out", []) + [(bv(c.ex.ld(st, norm(buf), 1), 8), bv(n, 32))]
        return 1

    def input_(c, st, this, to):
        got = c.got
        c.ex._put(st, norm(to), 1, z3.If(got, c.inb, bv(c.ex.ld(st, norm(to), 1), 8)))
        c.ex._put(st, c.addr("ser", "input_avail"), 1, z3.ZeroExt(7, fresh("still", 1)))
        return z3.If(got, B8(1), B8(0))

    def proc(c, st, *a):
        c.ex._put(st, c.addr("ser", "input_avail"), 1, z3.If(c.arrives, B8(1), fl(c, "input_avail", st)))
        st.ghost["proc"] = True
        return 0
    TK = [callee(r"cl_\w*cell\w*::write\(", "cell write", wrote), callee(r"cl_(?!\w*cell)\w*::write\(", "sent", sent), callee(r"cl_\w*::get_input\(", "get_input", input_, 8),
          callee(r"cl_\w*::cfg_get\(", "cfg_get", lambda c, st, this, k: z3.If(bv(k, 32) == V["often"], c.often, fresh("cfg", 32))), callee(r"cl_\w*::cfg_write\(", "cfg_write", None, 0),
          callee(r"cl_(?!\w*cell)\w*::get_fin\(", "get_fin", lambda c, *a: c.fin), callee(r"cl_\w*io::input_avail\(", "input_avail", lambda c, *a: c.there, 8),
          callee(r"cl_(?!\w*cell)\w*::proc_input\(", "proc_input", proc, 32), callee(r"cl_\w*::clock_per_cycle\(", "clocks", lambda c, *a: c.cpc)]
    BC = S + "::serial_bit_cnt()"

    def tick(mode):
        src = ("s_tr_tick", "s_rec_tick") if mode in (0, 2) else ("s_tr_t1", "s_rec_t1")

        def div(c, k):
            d = divider(mode, on(c, "_bmSMOD"))
            return d if mode in (0, 2) else z3.If(on(c, ("t2_tr", "t2_rec")[k]), B32(16), d)

        def pre(c):
            serial(c, mode)
            c.cyc, c.cpc, c.often = c.var("cycles", 32), c.var("clocks per cycle", 32), c.var("check often", 32)
            c.inb, c.got, c.arrives = c.var("input byte", 8), c.bvar("got"), c.bvar("arrives")
            c.fin = z3.If(c.bvar("fin"), z3.BitVecVal(c.obj("f", "cl_f"), 64), z3.BitVecVal(0, 64))
            c.there = z3.If(c.bvar("there"), B8(1), B8(0))
            c.assume(c.cyc >= 0, c.cyc < 4096, c.cpc > 0, c.cpc <= 64)
            for f in ("s_tr_tick", "s_rec_tick", "s_tr_t1", "s_rec_t1", "s_tr_bit", "s_rec_bit"):
                c.assume(fl(c, f) >= 0, fl(c, f) < LIM)
            for f in src:
                c.keep_small(fl(c, f) < 64 * 3)
            return args(c, c.t, c.cyc)

        def after(c, k, n):
            """the source and the bit counter after n bit times"""
            f, b = src[k], ("s_tr_bit", "s_rec_bit")[k]
            b0 = fl(c, b)
            return fl(c, f) - n * div(c, k), b0 + n if k else z3.If(b0 >= FRAME[mode], b0, z3.If(n >= FRAME[mode] - b0, B32(FRAME[mode]), b0 + n))

        def whole(c, k):
            return z3.UDiv(fl(c, src[k]), div(c, k))

        def loop(k):
            def inv(c, st, n):
                n = z3.Extract(31, 0, n)
                s, b = after(c, k, n)
                return [("so many bit times are counted", z3.ULE(n, whole(c, k))), ("what is left of the counter", fl(c, src[k], st) == s), ("the bits", fl(c, ("s_tr_bit", "s_rec_bit")[k], st) == b)]

            def mod(c, st, n):
                for f in (src[k], ("s_tr_bit", "s_rec_bit")[k]):
                    c.ex._put(st, c.addr("ser", f), 4, fresh(f, 32))
            return Loop(inv, mod)

        def post(c, e):
            add = c.cyc * c.cpc
            sending, receiving = on(c, "s_sending"), on(c, "s_receiving")
            n = [z3.If(b, whole(c, k), B32(0)) for k, b in ((0, sending), (1, receiving))]
            (ts, tb), (rs, rb) = after(c, 0, n[0]), after(c, 1, n[1])
            out = z3.And(sending, tb >= FRAME[mode])
            full = z3.And(receiving, rb >= FRAME[mode])
            got = z3.And(full, c.got)
            avail = z3.Or(on(c, "input_avail"), z3.And(c.often != 0, c.fin != 0, c.there != 0, c.arrives))
            begin = z3.And(z3.Not(receiving), on(c, "_bmREN"), avail)
            isout = e.case(out)
            isgot = e.case(got)
            w, o = e.st.ghost["w"], e.st.ghost.get("out", [])
            want = ([(TI, 1)] if isout else []) + ([(RI, 1)] if isgot else [])
            e.goal("TI and RI are set when a frame is complete, and only then", sorted(x[0] for x in w) == sorted(x[0] for x in want))
            e.goal("the flags are set, not cleared", z3.And([x[1] != 0 for x in w]) if w else True)
            e.goal("the byte goes out when its frame is complete, and only then", len(o) == (1 if isout else 0))
            for x in o:
                e.goal("it is the byte written to SBUF", z3.And(x[0] == fl(c, "s_out"), x[1] == 1))
            e.set("ser", "s_sending", z3.If(z3.And(sending, z3.Not(out)), B8(1), B8(0)))
            e.set("ser", "s_tr_bit", z3.If(out, tb - FRAME[mode], tb))
            e.set("ser", "s_receiving", z3.If(z3.Or(begin, z3.And(receiving, z3.Not(got))), B8(1), B8(0)))
            e.set("ser", "s_rec_bit", z3.If(begin, B32(0), z3.If(got, rb - FRAME[mode], rb)))
            rs = z3.If(begin, B32(0), rs)
            if mode in (0, 2):
                e.set("ser", "s_tr_tick", ts + add)
                e.set("ser", "s_rec_tick", rs + add)
                e.any("ser", "s_tr_t1")
                e.any("ser", "s_rec_t1")
            else:
                e.set("ser", "s_tr_t1", ts)
                e.set("ser", "s_rec_t1", rs)
                e.any("ser", "s_tr_tick")
                e.any("ser", "s_rec_tick")
            if isgot:
                e.set("ser", "s_in", c.inb)
                e.set_addr(c.slot["sbuf"], 1, c.inb)
            e.any("ser", "input_avail")
        return pre, post, {BC: {0: loop(0), 1: loop(1)}}
    for mode in range(4):
        pre, post, loops = tick(mode)
        u(f"tick in mode {mode}", S + "::tick(int)", pre, post, TK, loops)

    # ------------------------------------------------------------ the timers that give the bit time
    def hap(c):
        serial(c)
        c.hw, c.he = c.obj("hw", "cl_hw"), c.var("event", 32)
        c.par = c.obj("par", nbytes=8)
        c.st.ov = {a: e for a, e in c.st.ov.items() if not c.par <= a < c.par + 8}
        c.t2con = c.var("T2CON", 32)
        c.st.ov[c.par] = (4, c.t2con)
        cat, i = bv(c.fld("hw", "category"), 32), bv(c.fld("hw", "id"), 32)
        # timer 1 tells of overflows only (C10), so does timer 2, but for the change of its mode
        c.assume(z3.Implies(z3.And(cat == V["TIMER"], i == 1), c.he == V["OVF"]))
        return args(c, c.t, c.hw, c.he, c.par)

    def post_h(c, e):
        cat, i = bv(c.fld("hw", "category"), 32), bv(c.fld("hw", "id"), 32)
        t = cat == V["TIMER"]
        change = z3.And(t, i == 2, c.he == V["T2MODE"])
        for cnt, flag, bit in (("s_tr_t1", "t2_tr", TCLK), ("s_rec_t1", "t2_rec", RCLK)):
            sel = c.t2con & bit != 0
            e.any("ser", flag)
            e.goal(f"{flag}: T2CON selects the timer", (bv(e.fld("ser", flag), 8) != 0) == z3.If(change, sel, on(c, flag)))
            mine = z3.And(t, c.he == V["OVF"], z3.If(on(c, flag), i == 2, i == 1))
            e.any("ser", cnt)
            got = bv(e.fld("ser", cnt), 32)
            e.goal(f"{cnt}: the overflows of the selected timer are counted, no other", z3.Implies(z3.Not(z3.And(change, sel != on(c, flag))), got == z3.If(mine, fl(c, cnt) + 1, fl(c, cnt))))
            e.goal(f"{cnt}: the count starts anew, or goes on, when the timer changes", z3.Implies(z3.And(change, sel != on(c, flag)), z3.Or(got == 0, got == fl(c, cnt))))
    u("happen", S + "::happen(cl_hw*, hw_event, void*)", hap, post_h)

    # ------------------------------------------------------------ reset
    def post_r(c, e):
        for f in ("s_tr_t1", "s_rec_t1", "s_tr_tick", "s_rec_tick", "s_rec_bit", "s_tr_bit"):
            e.set("ser", f, B32(0))
        for f in ("s_in", "s_out", "s_sending", "s_receiving"):
            e.set("ser", f, B8(0))
    u("reset", S + "::reset()", lambda c: (serial(c), args(c, c.t))[1], post_r)
    # ------------------------------------------------------------ the wiring
    def init(c):
        serial(c)
        c.st.ghost["reg"] = []
        c.t2 = c.obj("timer2", "cl_hw")
        c.has2 = c.bvar("there is a timer 2")
        return args(c, c.t)

    def register(c, st, this, sp, a):
        a, sp = norm(a), norm(sp)
        st.ghost["reg"] = st.ghost["reg"] + [("sfr" if sp == c.sfr else "bits" if sp == c.bas else sp, a)]
        if sp == c.bas and isinstance(a, int) and SCON <= a < SCON + 8:
            return c.bits[a - SCON]
        return {0x99: c.cells["sbuf"], SCON: c.cells["scon"], 0x87: c.cells["pcon"]}.get(a, 0) if sp == c.sfr else 0

    def space(c, st, this, nm):
        if norm(this) != c.uc:
            c.ex.side.append(("the address spaces are those of the CPU", list(st.pc), z3.BoolVal(False), st))
        txt, a = "", norm(nm)
        for i in range(8):
            b = norm(c.ex.ld(st, a + i, 1))
            if b == 0:
                break
            txt += chr(b)
        return c.bas if txt == "bits" else c.sfr
    IN = [callee(r"cl_serial_hw::init\(", "init", None, 32), callee(r"cl_\w*::set_name\(", "name", None, 0), callee(r"cl_hw::register_cell\(", "register", register, 64), callee(r"cl_\w*::address_space\(", "space", space),
          callee(r"cl_\w*::get_hw\(", "get_hw", lambda c, *a: z3.If(c.has2, z3.BitVecVal(c.t2, 64), z3.BitVecVal(0, 64))), callee(r"cl_address_space::get\(", "get", lambda c, *a: z3.ZeroExt(24, c.t2con))]

    def init2(c):
        c.t2con = c.var("T2CON", 8)
        return init(c)

    def post_i(c, e):
        want = [("sfr", 0x87), ("sfr", SCON), ("sfr", 0x99)] + [("bits", SCON + i) for i in range(8)]
        e.goal("SBUF, PCON, SCON and its bits are watched", sorted(map(str, e.st.ghost["reg"])) == sorted(map(str, want)))
        e.loose.update(range(c.t, c.t + c.objs["ser"][1]))
        for f in ("sbuf", "pcon", "scon"):
            e.goal(f"{f} is the register watched", bv(e.fld("ser", f), 64) == c.cells[f])
        for i in range(8):
            e.goal(f"bit {i} is the bit watched", bv(c.ex.ld(e.st, c.addr("ser", "scon_bits") + 8 * i, 8), 64) == c.bits[i])
        for f in ("t2_rec", "t2_tr"):
            e.goal(f"{f}: T2CON selects the timer", (bv(e.fld("ser", f), 8) != 0) == z3.And(c.has2, c.t2con & (RCLK if f == "t2_rec" else TCLK) != 0))
    u("init", S + "::init()", init2, post_i, IN)

    def added(c):
        init2(c)
        c.hw = c.obj("hw", "cl_hw")
        c.has2 = z3.And(bv(c.fld("hw", "category"), 32) == V["TIMER"], bv(c.fld("hw", "id"), 32) == 2)
        return args(c, c.t, c.hw)

    def post_a(c, e):
        e.loose.update(range(c.t, c.t + c.objs["ser"][1]))
        for f in ("t2_rec", "t2_tr"):
            e.goal(f"{f}: T2CON selects the timer", (bv(e.fld("ser", f), 8) != 0) == z3.If(c.has2, c.t2con & (RCLK if f == "t2_rec" else TCLK) != 0, on(c, f)))
        for f in ("s_sending", "s_receiving", "_mode", "_bits", "_divby", "s_tr_bit", "s_rec_bit"):
            e.goal(f"{f} is kept", bv(e.fld("ser", f), w(f)) == fl(c, f))
    u("a timer 2 is added", S + "::new_hw_added(cl_hw*)", added, post_a, IN)

    def partner(c, st, this, cat, i):
        st.ghost["partner"] = st.ghost.get("partner", []) + [(norm(cat), norm(i))]
        return 0
    for k in (1, 2):
        cls = f"cl_timer{k}"
        CT = [callee(r"cl_timer0::cl_timer0\(|cl_hw::cl_hw\(", "base", None, 0), callee(r"cl_\w*::make_partner\(", "partner", partner, 0), callee(r"cl_\w*::address_space\(", "space", lambda c, *a: c.sfr),
              callee(r"cl_hw::register_cell\(", "register", None, 64)]

        def cpre(c, cls=cls, k=k):
            c.sfr, c.uc = c.obj("sfr", "cl_address_space"), c.obj("uc", "cl_uc52")
            c.hw = c.obj("timer", "cl_timer2" if k == 2 else "cl_timer0", uc=c.uc)
            return args(c, c.hw, c.uc, k, 0, *([0] if k == 2 else []))

        def cpost(c, e):
            e.goal("the UART is told of the overflows", (V["UART"], 0) in e.st.ghost.get("partner", []))
            e.loose.update(range(c.hw, c.hw + 4096))
        u(f"constructor.{cls}", f"{cls}::{cls}(cl_uc*, int, char const*{', int' if k == 2 else ''})", cpre, cpost, CT)
    sfr_reset(u, "cl_51core", {"SCON": SCON, "PCON": 0x87})
    return U


def run(rep):
    from .. import fn
    fn.run(rep, machine, units)
