"""C10: timers/counters 0, 1 and 2 of the MCS-51 count as documented."""
import z3

from ..fn import Machine, Unit, Loop, callee
from ..sym import bv, boolv, fresh, norm
from .memory import args

T0, T1, T2 = "cl_timer0", "cl_timer1", "cl_timer2"
MASKS = ["mask_M0", "mask_M1", "mask_C_T", "mask_GATE", "mask_TR", "mask_INT", "mask_T", "mask_TF"]
F0 = ["cell_tmod", "cell_tcon", "cell_tl", "cell_th", "bas", "addr_tl", "addr_th", "addr_tcon", "mode", "GATE", "C_T", "TR", "INT", "T_edge"] + MASKS
F2 = ["sfr", "features", "exf2it", "mask_RCLK", "mask_TCLK", "mask_CP_RL2", "RCLK", "TCLK", "CP_RL2", "EXEN2", "t2ex_edge", "cell_rcap2l", "cell_rcap2h", "cell_t2mod", "bit_dcen", "bit_t2oe", "bit_t2ex"]
EP = ["id", "addr", "prev_value", "new_value", "pins", "new_pins"]
FIELDS = ([(T0, f) for f in F0] + [(T2, f) for f in F2] + [("cl_memory_cell", f) for f in ("data", "mask", "width", "flags", "ops")] + [("ev_port_changed", f) for f in EP] + [("cl_hw", f) for f in ("category", "id", "uc")]
          + [(c, f) for c in ("cl_51core", "cl_uc52") for f in ("sfr", "prev_p1", "prev_p3")])
# the documented bits (MCS-51 programmer's guide)
TMOD = {0: dict(M0=1, M1=2, C_T=4, GATE=8), 1: dict(M0=0x10, M1=0x20, C_T=0x40, GATE=0x80)}
TCON = {0: dict(TR=0x10, TF=0x20), 1: dict(TR=0x40, TF=0x80)}
P3 = {0: dict(INT=4, T=0x10), 1: dict(INT=8, T=0x20)}
ADR = {0: dict(tl=0x8a, th=0x8c, tcon=0x88), 1: dict(tl=0x8b, th=0x8d, tcon=0x88), 2: dict(tl=0xcc, th=0xcd, tcon=0xc8)}
TF2, EXF2, RCLK, TCLK, EXEN2, TR2, CT2, CPRL2 = 0x80, 0x40, 0x20, 0x10, 8, 4, 2, 1
T2OE, DCEN = 2, 1
RELOAD, CAPTURE, BAUD, DOWN, CLKOUT = "RELOAD", "CAPTURE", "BAUDRATE", "DOWN", "CLKOUT"
LIM = 1 << 24
W = lambda x: bv(x, 64)
B = lambda x: z3.Extract(7, 0, bv(x, 32)) if not isinstance(x, z3.BitVecRef) or x.size() > 8 else x
C64 = lambda v: z3.BitVecVal(v, 64)
z64 = lambda x: z3.ZeroExt(64 - x.size(), x)


class Mach(Machine):
    parents = {T1: T0, T2: T0, T0: "cl_hw", "cl_cell8": "cl_memory_cell", "cl_bit_cell8": "cl_memory_cell"}


def machine():
    return Mach(sim="s51", includes=["sim51cl.h", "uc51cl.h", "uc52cl.h", "regs51.h", "types51.h", "timer0cl.h", "timer1cl.h", "timer2cl.h"], fields=FIELDS,
                classes=[T0, T1, T2, "cl_hw", "cl_memory_cell", "cl_cell8", "cl_bit_cell8", "cl_address_space", "cl_uc", "cl_51core", "cl_uc52", "ev_port_changed", "cl_it_src"], tag="timers51",
                probes={"=RO": "CELL_READ_ONLY", "=PORT": "HW_PORT", "=CHG": "EV_PORT_CHANGED", "=OVF": "EV_OVERFLOW", "=t2_down": "t2_down", "=t2_clk": "t2_clock_out",
                        **{"=T2." + m: "T2MODE_" + m for m in (RELOAD, CAPTURE, BAUD, DOWN, CLKOUT)}})


def sfr_reset(u, cls, regs):
    """The reset of the SFRs goes through write(): the peripherals decode what they are told by a write, a set would pass them by."""
    def put(how):
        def f(c, st, this, a, v):
            st.ghost["sfr"] = {**st.ghost["sfr"], norm(a): (how, bv(v, 32))}
            return v
        return f
    cs = [callee(r"cl_address_space::set\(", "set", put("set")), callee(r"cl_address_space::write\(", "write", put("write")), callee(r"cl_address_space::read\(", "read")]

    def pre(c):
        c.st.ghost["sfr"] = {}
        c.ex.max_visits = 400
        c.sfr = c.obj("sfr", "cl_address_space")
        return args(c, c.obj("cpu", cls, sfr=c.sfr))

    def post(c, e):
        got = e.st.ghost["sfr"]
        for nm, a in regs.items():
            how, v = got.get(a, ("not touched", bv(1, 32)))
            e.goal(f"{nm} is written, not only set", how == "write")
            e.goal(f"{nm} is 0", v == 0)
        for f in ("prev_p1", "prev_p3"):
            e.any("cpu", f)
    u(f"reset of the SFRs.{cls}", cls + "::clear_sfr()", pre, post, cs)


def units(M):
    U = []
    V = M.img.val

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))

    # ------------------------------------------------------------ the registers
    def byte(c, nm):
        sa = c.obj(nm, nbytes=8)
        v = c.var(nm, 8)
        c.st.ov = {a: e for a, e in c.st.ov.items() if not sa <= a < sa + 8}
        c.st.ov[sa] = (1, v)
        for i in range(1, 8):
            c.st.ov[sa + i] = (1, c.var(f"{nm}+{i}", 8))
        fl = c.var(nm + ".flags", 8)
        c.assume(fl & V["RO"] == 0)
        a = c.obj(nm + ".cell", "cl_cell8", data=sa, ops=0, mask=0xff, width=8, flags=fl)
        c.slot[nm], c.v0[nm] = sa, v
        return a

    def now(c, st, nm):
        return bv(c.ex.ld(st, c.slot[nm], 1), 8)

    def timer(c, i, cls=None, **k):
        c.slot, c.v0 = {}, {}
        c.cells = {n: byte(c, n) for n in ("tl", "th", "tcon") + (("rcapl", "rcaph", "p1") if i == 2 else ("tmod",))}
        m = {**TMOD[i], **TCON[i], **P3[i]} if i < 2 else dict(M0=0, M1=0, GATE=0, INT=0, C_T=CT2, TR=TR2, TF=TF2, T=1)
        kw = {"mask_" + n: v for n, v in m.items()}
        kw.update({"addr_" + n: v for n, v in ADR[i].items()})
        kw.update(cell_tl=c.cells["tl"], cell_th=c.cells["th"], cell_tcon=c.cells["tcon"])
        if i == 2:
            c.sfr = c.obj("sfr", "cl_address_space")
            kw.update(cell_rcap2l=c.cells["rcapl"], cell_rcap2h=c.cells["rcaph"], cell_tmod=0, sfr=c.sfr, mask_RCLK=RCLK, mask_TCLK=TCLK, mask_CP_RL2=CPRL2)
        else:
            kw.update(cell_tmod=c.cells["tmod"])
        kw["bas"] = c.obj("bas", "cl_address_space")
        kw.update(k)
        c.t = c.obj("timer", cls or (T0, T1, T2)[i], **kw)
        for b in ("bit_dcen", "bit_t2oe", "bit_t2ex") if i == 2 else ():
            c.assume(z3.ULE(bv(c.fld("timer", b), 8), 1))
        return c.t

    fl = lambda c, f: bv(c.fld("timer", f), 8 * M.field(T2, f)[1])
    on = lambda c, f: fl(c, f) != 0

    def counts(c, six=False):
        c.cyc = c.var("cycles", 32)
        e = fl(c, "T_edge")
        c.assume(c.cyc >= 0, c.cyc < LIM, e >= 0, e < LIM)
        c.keep_small(c.cyc < (2 if six else 3), e < 3)
        c.st.ghost["ov"] = z3.BitVecVal(0, 64)
        return args(c, c.t, c.cyc)

    def partners(c, st, this, ev, par):
        c.ex.side.append(("the partners are told of the overflow", list(st.pc), z3.And(W(this) == c.t, bv(ev, 32) == V["OVF"]), st))
        st.ghost["ov"] = st.ghost["ov"] + 1
        return 0
    OVF = callee(r"cl_hw::inform_partners\(", "overflow", partners, 0)
    ov = lambda st: st.ghost["ov"]
    GETC = callee(r"cl_\w*::get_cell\(", "get_cell", lambda c, st, this, a: z3.If(bv(a, 32) == 0x90, W(c.cells["p1"]), z3.BitVecVal(0, 64)))

    def havoc(*names):
        def mod(c, st, n):
            for nm in names:
                c.ex._put(st, c.slot[nm], 1, fresh(nm, 8))
            st.ghost["ov"] = fresh("ov", 64)
        return mod

    def value(c, st=None):
        h, l = (c.v0["th"], c.v0["tl"]) if st is None else (now(c, st, "th"), now(c, st, "tl"))
        return z3.Concat(h, l)

    def scale(n, k):
        return n * k

    def trip(c, six=False):
        """How many counts this tick makes, given that the counter runs."""
        own = z64(c.cyc) * (6 if six else 1)
        return z3.If(on(c, "C_T"), z64(fl(c, "T_edge")), own)

    gated = lambda c: z3.And(on(c, "GATE"), z3.Not(on(c, "INT")))
    runs = lambda c: z3.And(on(c, "TR"), z3.Not(gated(c)))

    # ------------------------------------------------------------ what n counts do: closed forms
    def past(v, n, w):
        """v (of w bits) counted up n times -> (value, how often it passed its end)"""
        s = z64(v) + n
        return z3.Extract(w - 1, 0, s), z3.LShR(s, w)

    v13 = lambda c, st=None: z3.Concat(c.v0["th"], z3.Extract(4, 0, c.v0["tl"])) if st is None else z3.Concat(now(c, st, "th"), z3.Extract(4, 0, now(c, st, "tl")))

    def flagged(c, mask, how):
        return c.v0["tcon"] | z3.If(how, z3.BitVecVal(mask, 8), z3.BitVecVal(0, 8))

    def after(c, i, mode, n):
        """-> [(what, formula over the state st)] after n counts"""
        tf = TCON[i]["TF"]
        if mode == 0:
            v, k = past(v13(c), n, 13)
            return lambda st: [("13 bits are counted", v13(c, st) == v), ("TF tells of the overflow", now(c, st, "tcon") == flagged(c, tf, k != 0)), ("every overflow is told", ov(st) == k)]
        if mode == 1:
            v, k = past(value(c), n, 16)
            return lambda st: [("16 bits are counted", value(c, st) == v), ("TF tells of the overflow", now(c, st, "tcon") == flagged(c, tf, k != 0)), ("every overflow is told", ov(st) == k)]
        if mode == 2:
            G = steps(c, "m2", (c.v0["tl"], c.v0["tcon"], C64(0)), lambda s: (z3.If(s[0] == 0xff, c.v0["th"], s[0] + 1), z3.If(s[0] == 0xff, s[1] | tf, s[1]), z3.If(s[0] == 0xff, s[2] + 1, s[2])))
            l, t, k = G(n)
            return lambda st: [("8 bits are counted and reloaded", now(c, st, "tl") == l), ("TF tells of the overflow", now(c, st, "tcon") == t), ("every overflow is told", ov(st) == k)]
        v, k = past(c.v0["tl"], n, 8)
        return lambda st: [("TL counts 8 bits", now(c, st, "tl") == v), ("TF tells of the overflow", now(c, st, "tcon") == flagged(c, tf, k != 0)), ("every overflow is told", ov(st) == k)]

    def steps(c, nm, first, step):
        if nm in c.defs:
            return c.defs[nm]
        """The state after n single counts, as functions of n, defined count by count; G.defs(n) says what the definition says about n."""
        if c.small_mode:
            def G(n):
                s, r = first, first
                for k in range(1, 20):
                    s = step(s)
                    r = tuple(z3.If(n == k, x, y) for x, y in zip(s, r))
                return r
            c.defs[nm] = G
            return G
        fs = [z3.Function(f"{nm}.{i}", z3.BitVecSort(64), x.sort()) for i, x in enumerate(first)]
        G = lambda n: tuple(f(n) for f in fs)
        c.assume(*[x == y for x, y in zip(G(C64(0)), first)])
        G.defs = lambda n: [x == y for x, y in zip(G(n + 1), step(G(n)))]
        c.defs[nm] = G
        return G

    def dfs(c, st, n):
        return [f for d in c.defs.values() for f in d.defs(n)]

    # ------------------------------------------------------------ timers 0 and 1
    for i in (0, 1):
        for mode in (0, 1, 2):
            fn = f"{T0}::do_mode{mode}(int)"

            def pre(c, i=i, mode=mode):
                c.defs = {}
                timer(c, i)
                after(c, i, mode, C64(0))
                return counts(c)

            def inv(c, st, n, i=i, mode=mode):
                return [("so many counts are left", z3.ULE(n, trip(c)))] + after(c, i, mode, n)(st)

            def post(c, e, i=i, mode=mode):
                N = z3.If(runs(c), trip(c), C64(0))
                for nm, f in after(c, i, mode, N)(e.st):
                    e.goal(nm, f)
                e.goal("a stopped timer keeps TL", z3.Implies(z3.Not(runs(c)), now(c, e.st, "tl") == c.v0["tl"]))
                e.set("timer", "T_edge", z3.If(z3.And(runs(c), on(c, "C_T")), z3.BitVecVal(0, 32), z3.If(z3.And(on(c, "TR"), gated(c)), z3.BitVecVal(0, 32), fl(c, "T_edge"))))
                for nm in ("tl", "tcon") + (("th",) if mode != 2 else ()):
                    e.loose.add(c.slot[nm])
            names = ("tl", "tcon") + (("th",) if mode != 2 else ())
            u(f"timer{i}.mode{mode}", fn, pre, post, [OVF], {fn: Loop(inv, havoc(*names), defs=dfs)})
    # mode 3: timer 0 is two 8 bit timers, TH runs by TR1 and sets TF1
    fn3 = T0 + "::do_mode3(int)"

    def pre3(c):
        c.defs = {}
        timer(c, 0)
        return counts(c)
    nlow = lambda c: z3.If(runs(c), trip(c), C64(0))

    def inv3l(c, st, n):
        return [("so many counts are left", z3.ULE(n, trip(c)))] + after(c, 0, 3, n)(st)

    def high(c, st, n):
        v, k = past(c.v0["th"], n, 8)
        low, kl = past(c.v0["tl"], nlow(c), 8)
        t = flagged(c, TCON[0]["TF"], kl != 0) | z3.If(k != 0, z3.BitVecVal(TCON[1]["TF"], 8), z3.BitVecVal(0, 8))
        return [("TH counts 8 bits", now(c, st, "th") == v), ("TF1 tells of the overflow of TH", now(c, st, "tcon") == t), ("TL is counted", now(c, st, "tl") == low), ("every overflow of TL is told", ov(st) == kl)]

    def inv3h(c, st, n):
        return [("so many counts are left", z3.ULE(n, z64(c.cyc)))] + high(c, st, n)

    def post3(c, e):
        for nm, f in high(c, e.st, z3.If(c.v0["tcon"] & TCON[1]["TR"] != 0, z64(c.cyc), C64(0))):
            e.goal(nm, f)
        edges(c, e)
        e.loose.update(c.slot[n] for n in ("tl", "th", "tcon"))

    def edges(c, e):
        """The counted edges are taken, edges seen while the counter is gated off are forgotten."""
        e.set("timer", "T_edge", z3.If(z3.And(on(c, "TR"), z3.Or(gated(c), on(c, "C_T"))), z3.BitVecVal(0, 32), fl(c, "T_edge")))
    u("timer0.mode3", fn3, pre3, post3, [OVF], {fn3: {0: Loop(inv3l, havoc("tl", "tcon")), 1: Loop(inv3h, lambda c, st, n: [c.ex._put(st, c.slot[x], 1, fresh(x, 8)) for x in ("th", "tcon")])}})

    def nothing(c, e):
        e.goal("no overflow", ov(e.st) == 0)
        e.calls()
    u("timer1.mode3", T1 + "::do_mode3(int)", lambda c: (timer(c, 1), counts(c))[1], nothing, [OVF])

    # ------------------------------------------------------------ which of them a tick runs
    DO = [callee(r"cl_timer[01]::do_mode%d\(" % k, "mode%d" % k) for k in range(4)]
    for i in (0, 1):
        for k in range(4):
            u(f"timer{i}.tick.{k}", T0 + "::tick(int)", lambda c, i=i, k=k: (timer(c, i, mode=k), counts(c))[1],
              lambda c, e, k=k: e.calls((f"mode{k}", z3.BitVecVal(c.t, 64), c.cyc)), DO)

    # ------------------------------------------------------------ the control registers
    def wr(i, which, cls=None, **k):
        def pre(c):
            timer(c, i, cls, **k)
            c.val = c.var("value", 32)
            c.assume(z3.ULT(c.val, 256) if which != "bit" else z3.ULT(c.val, 2))
            vp = c.obj("val", nbytes=8)
            c.st.ov = {a: e for a, e in c.st.ov.items() if not vp <= a < vp + 8}
            c.st.ov[vp] = (4, c.val)
            c.ba = c.var("bit", 32)
            c.assume(z3.UGE(c.ba, ADR[i]["tcon"]), z3.ULT(c.ba, ADR[i]["tcon"] + 8))
            c.cells["bit"] = c.obj("bit.cell", "cl_bit_cell8")
            if i == 2:
                c.cells["t2mod"] = c.obj("t2mod.cell", "cl_cell8")
                c.ex._put(c.st, c.addr("timer", "cell_t2mod"), 8, c.cells["t2mod"])
                c.assume(fl(c, "T_edge") >= 0, fl(c, "t2ex_edge") >= 0)
            return args(c, c.t, c.cells[which], vp)
        return pre

    def owned(c, st, this, cell, to):
        if isinstance(norm(cell), int) and cell == c.cells["bit"]:
            c.ex._put(st, to, 4, c.ba)
            return 1
        return 0
    OWN = callee(r"cl_\w*::is_owned\(", "is_owned", owned, 1)
    TOLD = callee(r"cl_hw::inform_partners\(", "told", None, 0)
    v8 = lambda c: B(c.val)

    def newreg(c, which):
        """What the control register holds after the write."""
        if which != "bit":
            return v8(c)
        m = z3.BitVecVal(1, 8) << B(c.ba - ADR[2 if "rcapl" in c.cells else 0]["tcon"])
        return z3.If(c.val != 0, c.v0["tcon"] | m, c.v0["tcon"] & ~m)

    def told(e, name, f, cond):
        e.any("timer", f)
        e.goal(name, (bv(e.fld("timer", f), 8 * M.field(T2, f)[1]) != 0) == cond)
    for i in (0, 1):
        m = TMOD[i]

        def post_tmod(c, e, i=i, m=m):
            md = z3.If(v8(c) & m["M1"] != 0, z3.BitVecVal(2, 32), z3.BitVecVal(0, 32)) + z3.If(v8(c) & m["M0"] != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            e.set("timer", "mode", md)
            told(e, "GATE is taken from TMOD", "GATE", v8(c) & m["GATE"] != 0)
            told(e, "C/T is taken from TMOD", "C_T", v8(c) & m["C_T"] != 0)
            e.set("timer", "T_edge", z3.BitVecVal(0, 32))
        u(f"timer{i}.write TMOD", T0 + "::write(cl_memory_cell*, unsigned int*)", wr(i, "tmod"), post_tmod, [OWN])
        for which in ("tcon", "bit"):
            def post_tcon(c, e, i=i, which=which):
                r = newreg(c, which)
                told(e, "TR is taken from TCON", "TR", r & TCON[i]["TR"] != 0)
                e.any("timer", "T_edge")
                t = bv(e.fld("timer", "T_edge"), 32)
                e.goal("no edge before the start is counted", z3.Or(t == 0, z3.And(t == fl(c, "T_edge"), on(c, "TR"))))
            u(f"timer{i}.write TCON {which}", T0 + "::write(cl_memory_cell*, unsigned int*)", wr(i, which), post_tcon, [OWN])

    # ------------------------------------------------------------ the pins
    def pins(i):
        def pre(c):
            timer(c, i)
            c.ep = c.obj("ep", "ev_port_changed", vptr=0)
            c.hw = c.obj("port", "cl_hw")
            c.he = c.var("event", 32)
            c.assume(fl(c, "T_edge") < LIM)
            return args(c, c.t, c.hw, c.he, c.ep)
        return pre
    ep = lambda c, f: bv(c.fld("ep", f), 32)
    fell = lambda c, m: z3.And(ep(c, "pins") & ep(c, "prev_value") & m != 0, ep(c, "new_pins") & ep(c, "new_value") & m == 0)
    ours = lambda c, k: z3.And(bv(c.fld("port", "category"), 32) == V["PORT"], c.he == V["CHG"], ep(c, "id") == k)
    for i in (0, 1):
        def post_h(c, e, i=i):
            m = P3[i]
            e.set("timer", "T_edge", z3.If(z3.And(ours(c, 3), fell(c, m["T"])), fl(c, "T_edge") + 1, fl(c, "T_edge")))
            told(e, "the gate follows the INT pin", "INT", z3.If(ours(c, 3), ep(c, "new_pins") & ep(c, "new_value") & m["INT"] != 0, on(c, "INT")))
        u(f"timer{i}.pins", T0 + "::happen(cl_hw*, hw_event, void*)", pins(i), post_h)

    def post_h2(c, e):
        for f, m in (("T_edge", 1), ("t2ex_edge", 2)):
            e.set("timer", f, z3.If(z3.And(ours(c, 1), fell(c, m)), fl(c, f) + 1, fl(c, f)))
        told(e, "the direction follows T2EX", "bit_t2ex", z3.If(ours(c, 1), ep(c, "new_pins") & ep(c, "new_value") & 2 != 0, on(c, "bit_t2ex")))
    u("timer2.pins", T2 + "::happen(cl_hw*, hw_event, void*)", pins(2), post_h2)

    # ------------------------------------------------------------ timer 2
    T2M = lambda m: V["T2." + m]
    DO2 = [callee(r"cl_timer2::do_t2_%s\(" % k, k) for k in ("baud", "capture", "reload", "down", "clock_out")]
    for m, k in ((BAUD, "baud"), (CAPTURE, "capture"), (RELOAD, "reload"), (DOWN, "down"), (CLKOUT, "clock_out")):
        u(f"timer2.tick.{k}", T2 + "::tick(int)", lambda c, m=m: (timer(c, 2, mode=T2M(m)), counts(c))[1], lambda c, e, k=k: e.calls((k, z3.BitVecVal(c.t, 64), c.cyc)), DO2)

    def mode2(feat, r, dcen, oe):
        """The documented mode of T2CON = r and T2MOD (DCEN, T2OE)."""
        N = lambda m: z3.BitVecVal(T2M(m), 32)
        return z3.If(z3.And(feat & V["t2_clk"] != 0, oe), N(CLKOUT), z3.If(r & (RCLK | TCLK) != 0, N(BAUD), z3.If(r & CPRL2 != 0, N(CAPTURE), z3.If(z3.And(feat & V["t2_down"] != 0, dcen), N(DOWN), N(RELOAD)))))
    ACT = [callee(r"cl_it_src::activate\(", "activate", None, 0), callee(r"cl_it_src::deactivate\(", "deactivate", None, 0)]

    for which in ("tcon", "bit", "t2mod"):
        for it in (False, True):
            def pre_w(c, which=which, it=it):
                a = wr(2, which)(c)
                c.it = c.obj("exf2it", "cl_it_src") if it else 0
                c.ex._put(c.st, c.addr("timer", "exf2it"), 8, c.it)
                # T2CON as the timer knows it is T2CON as it was written
                o = c.var("t2con_before", 8)
                for f, m in (("RCLK", RCLK), ("TCLK", TCLK), ("CP_RL2", CPRL2), ("EXEN2", EXEN2), ("TR", TR2), ("C_T", CT2)):
                    c.assume(on(c, f) == (o & m != 0))
                c.o = o
                c.assume(fl(c, "mode") == mode2(fl(c, "features"), o, on(c, "bit_dcen"), on(c, "bit_t2oe")))
                return a

            def post_w(c, e, which=which, it=it):
                r = newreg(c, which) if which != "t2mod" else c.o
                dcen, oe = (v8(c) & DCEN != 0, v8(c) & T2OE != 0) if which == "t2mod" else (on(c, "bit_dcen"), on(c, "bit_t2oe"))
                for f, m in (("RCLK", RCLK), ("TCLK", TCLK), ("CP_RL2", CPRL2), ("EXEN2", EXEN2), ("TR", TR2), ("C_T", CT2)):
                    told(e, f"{f} is taken from T2CON", f, r & m != 0)
                told(e, "DCEN is taken from T2MOD", "bit_dcen", dcen)
                told(e, "T2OE is taken from T2MOD", "bit_t2oe", oe)
                md = mode2(fl(c, "features"), r, dcen, oe)
                e.set("timer", "mode", md)
                for f, cond in (("T_edge", z3.Or(r & CT2 == c.o & CT2, z3.BoolVal(False))), ("t2ex_edge", None)):
                    e.any("timer", f)
                    t = bv(e.fld("timer", f), 8 * M.field(T2, f)[1])
                    stale = z3.Or(z3.And(r & TR2 != 0, c.o & TR2 == 0), z3.And(r & CT2 != 0, c.o & CT2 == 0)) if f == "T_edge" else z3.And(r & EXEN2 != 0, c.o & EXEN2 == 0)
                    e.goal("no edge from before is counted: " + f, z3.Or(t == 0, z3.And(t == fl(c, f), z3.Not(stale))))
                got = [x[0] for x in e.log() if x[0] in ("activate", "deactivate")]
                if it:
                    # EXF2 asks for no interrupt while it is the 17th bit of the counter
                    last = got[-1] if got else None
                    was = fl(c, "mode") == T2M(DOWN)
                    now_ = bv(e.fld("timer", "mode"), 32) == T2M(DOWN)
                    e.goal("EXF2 asks for an interrupt unless it is a bit of the counter", {"deactivate": now_, "activate": z3.Not(now_), None: was == now_}[last])
                if which != "t2mod":
                    e.goal("the partners are told", any(x[0] == "told" for x in e.log()))
            u(f"timer2.write {which}{'' if it else ' no EXF2'}", T2 + "::write(cl_memory_cell*, unsigned int*)", pre_w, post_w, [OWN, TOLD] + ACT)

    rcap = lambda c: z3.Concat(c.v0["rcaph"], c.v0["rcapl"])
    now16 = lambda c, st: z3.Concat(now(c, st, "th"), now(c, st, "tl"))
    ext = lambda c: z3.And(on(c, "EXEN2"), on(c, "t2ex_edge"))
    one = lambda f, x: z3.If(f, x | 0, x)

    def run2(name, fn, first, step, regs, six=False, t2ex=True, **k):
        """One mode of timer 2: the state (16 bit value, T2CON, overflows told, P1) count by count."""
        fn = f"{T2}::{fn}(int)"

        def G(c):
            if not hasattr(c, "G2"):
                c.G2 = steps(c, "t2", first(c), lambda s: step(c, s))
            return c.G2

        def pre(c):
            c.defs = {}
            timer(c, 2)
            c.assume(fl(c, "t2ex_edge") >= 0)
            G(c)
            return counts(c, six)

        def inv(c, st, n):
            return [("so many counts are left", z3.ULE(n, trip(c, six)))] + told2(c, st, n)

        def told2(c, st, n):
            v, t, k, p = G(c)(n)
            return [("the counter", now16(c, st) == v), ("the flags in T2CON", now(c, st, "tcon") == t), ("the overflows told", ov(st) == k), ("the clock output", now(c, st, "p1") == p)]

        def post(c, e):
            for nm, f in told2(c, e.st, z3.If(on(c, "TR"), trip(c, six), C64(0))):
                e.goal(nm, f)
            e.set("timer", "T_edge", z3.If(z3.And(on(c, "TR"), on(c, "C_T")), z3.BitVecVal(0, 32), fl(c, "T_edge")))
            if t2ex:
                e.set("timer", "t2ex_edge", z3.If(on(c, "EXEN2"), z3.BitVecVal(0, 64), fl(c, "t2ex_edge")))
            e.loose.update(c.slot[n] for n in ("tl", "th", "tcon") + regs)
            k.get("more", lambda c, e: None)(c, e)
        u("timer2." + name, fn, pre, post, [OVF, GETC], {fn: k.get("loops") or Loop(inv, havoc("tl", "th", "tcon", *regs), defs=dfs)})
        return inv

    exf = lambda c: c.v0["tcon"] | z3.If(ext(c), z3.BitVecVal(EXF2, 8), z3.BitVecVal(0, 8))
    full = lambda s: s[0] == 0xffff
    up = lambda c, s: z3.If(full(s), rcap(c), s[0] + 1)
    plus = lambda cond, k: z3.If(cond, k + 1, k)
    orif = lambda cond, t, m: z3.If(cond, t | m, t)
    xorif = lambda cond, t, m: z3.If(cond, t ^ m, t)
    start = lambda v, t: (v, t, C64(0))
    run2("baud", "do_t2_baud", lambda c: (value(c), exf(c), C64(0), c.v0["p1"]), lambda c, s: (up(c, s), s[1], plus(full(s), s[2]), s[3]), (), six=True)
    run2("reload", "do_t2_reload", lambda c: (z3.If(ext(c), rcap(c), value(c)), exf(c), C64(0), c.v0["p1"]), lambda c, s: (up(c, s), orif(full(s), s[1], TF2), s[2], s[3]), ())

    def captured(c, e):
        e.goal("the value at the edge is captured", z3.Concat(now(c, e.st, "rcaph"), now(c, e.st, "rcapl")) == z3.If(ext(c), value(c), rcap(c)))
        e.loose.update((c.slot["rcapl"], c.slot["rcaph"]))
    run2("capture", "do_t2_capture", lambda c: (value(c), exf(c), C64(0), c.v0["p1"]), lambda c, s: (s[0] + 1, orif(full(s), s[1], TF2), s[2], s[3]), (), more=captured)
    run2("clock out", "do_t2_clock_out", lambda c: (value(c), exf(c), C64(0), c.v0["p1"]), lambda c, s: (up(c, s), s[1], plus(full(s), s[2]), xorif(z3.And(full(s), z3.Not(on(c, "C_T"))), s[3], 1)), ("p1",), six=True)

    def updown(c, s):
        end = z3.If(on(c, "bit_t2ex"), full(s), s[0] == rcap(c))
        return (z3.If(on(c, "bit_t2ex"), up(c, s), z3.If(end, z3.BitVecVal(0xffff, 16), s[0] - 1)), xorif(end, orif(end, s[1], TF2), EXF2), s[2], s[3])
    dn = T2 + "::do_t2_down(int)"
    lp = {}
    inv = run2("up or down", "do_t2_down", lambda c: (value(c), c.v0["tcon"], C64(0), c.v0["p1"]), updown, (), t2ex=False, loops=lp)
    for k in (0, 1):
        lp[k] = Loop(inv, havoc("tl", "th", "tcon"), defs=dfs)
    # ------------------------------------------------------------ which bits belong to which timer
    CT = [callee(r"cl_hw::cl_hw\(", "hw", None, 0), callee(r"cl_hw::make_partner\(", "partner", None, 0), callee(r"cl_\w*::address_space\(", "space", lambda c, *a: c.sfr),
          callee(r"cl_hw::register_cell\(", "register", lambda c, st, this, sp, a: c.reg, 64)]

    def ctor(fn, i, cls):
        def pre(c):
            c.sfr, c.reg = c.obj("sfr", "cl_address_space"), c.obj("t2mod", "cl_cell8")
            c.uc = c.obj("uc", "cl_uc")
            c.hw = c.obj("timer", cls, uc=c.uc)
            c.feat = c.var("asked", 32)
            return args(c, c.hw, c.uc, i, 0, *([c.feat] if cls == T2 else []))

        def post(c, e):
            m = {**TMOD[i], **TCON[i], **P3[i]} if i < 2 else dict(C_T=CT2, TR=TR2, TF=TF2, T=1, M0=0, M1=0, GATE=0, INT=0)
            for f in {f for f, _ in M._f[T0].items()} | ({f for f, _ in M._f[T2].items()} if cls == T2 else set()):
                e.any("timer", f)
            for n, v in m.items():
                e.set("timer", "mask_" + n, z3.BitVecVal(v, 32))
            for n, v in ADR[i].items():
                e.set("timer", "addr_" + n, z3.BitVecVal(v, 32))
            if cls == T2:
                e.set("timer", "features", c.feat)
                e.set("timer", "mask_RCLK", z3.BitVecVal(RCLK, 32))
                e.set("timer", "mask_TCLK", z3.BitVecVal(TCLK, 32))
                e.set("timer", "mask_CP_RL2", z3.BitVecVal(CPRL2, 32))
            if cls == T2 and e.case(c.feat & (V["t2_down"] | V["t2_clk"]) != 0):
                e.goal("T2MOD is watched", [x[1][2] for x in e.log("register")] == [0xc9])
            e.loose.add(e.c.objs["timer"][0])
        u(f"constructor.{cls[3:]} {i}", fn, pre, post, CT)
    for i, cls in ((0, T0), (1, T0), (2, T0)):
        ctor(T0 + "::cl_timer0(cl_uc*, int, char const*)", i, cls)
    ctor(T2 + "::cl_timer2(cl_uc*, int, char const*, int)", 2, T2)
    sfr_reset(u, "cl_51core", {"TMOD": 0x89, "TCON": 0x88, "TL0": 0x8a, "TL1": 0x8b, "TH0": 0x8c, "TH1": 0x8d})
    sfr_reset(u, "cl_uc52", {"TMOD": 0x89, "TCON": 0x88, "T2CON": 0xc8, "T2MOD": 0xc9, "TL2": 0xcc, "TH2": 0xcd, "RCAP2L": 0xca, "RCAP2H": 0xcb})
    return U


def run(rep):
    from .. import fn
    fn.run(rep, machine, units)
