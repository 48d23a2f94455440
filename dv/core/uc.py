"""C04, C05, C09: the controller's own work around an instruction: breakpoints, time, interrupts."""
import z3

from ..fn import Machine, Unit, Lemma, Loop, callee, const_ret
from ..sym import bv, boolv, fresh, norm
from .memory import args, idx32

UC, L = "cl_uc", "cl_list"
UCF = ["PC", "instPC", "PCmask", "inst_exec", "ticks", "counters", "inst_ticks", "stop_selfjump", "repeating", "brk_counter", "fbrk", "ebrk", "sim", "stop_at_time",
       "hws", "rom", "irq", "it_sources", "it_levels", "stack_ops", "errors", "events", "vcd_break", "xtal", "xtal_tick", "state"]
VC = ["inst", "fetch", "rd", "wr"]
BRK = ["mem", "cell", "nr", "addr", "perm", "hit", "cnt"]
ITS = ["uc", "nmi", "ie_cell", "src_cell", "parent", "poll_priority", "nuof", "cid", "ie_mask", "ie_value", "src_mask", "src_value", "addr", "clr_bit", "active", "indirect"]
MEASURE = ["cl_time_measurer", "cl_time_clk", "cl_time_vclk", "cl_time_fclk", "cl_time_rclk", "cl_time_wclk"]
FIELDS = ([(UC, f) for f in UCF] + [(UC, "vc." + f) for f in VC] + [(L, f) for f in ("count", "Items", "Limit", "Delta")] + [("cl_sorted_list", "Duplicates"), ("brk_coll", "rom")]
          + [("cl_ticker", f) for f in ("type", "rtime", "ticks", "dir", "run", "user")] + [("cl_hw", f) for f in ("flags", "on")]
          + [("cl_brk", f) for f in BRK] + [("cl_ev_brk", "event"), ("cl_memory_operator", "cell"), ("cl_event_break_operator", "uc"), ("cl_event_break_operator", "bp")] + [("cl_it_src", f) for f in ITS]
          + [("it_level", f) for f in ("level", "addr", "PC", "source")] + [("cl_sim", f) for f in ("app", "state", "uc", "start_tick", "steps_done", "steps_todo", "exec_limit", "start_at")]
          + [("cl_time_measurer", f) for f in ("to_reach", "uc")] + [("cl_memory", f) for f in ("start_address", "size")])
W = lambda x: bv(x, 64)
I32 = lambda v: z3.BitVecVal(v, 32)
MAX = 1 << 20


class Mach(Machine):
    parents = {"brk_coll": "cl_sorted_list", "cl_sorted_list": L, "cl_ev_brk": "cl_brk", "cl_fetch_brk": "cl_brk", "cl_irqs": "cl_sorted_list", "cl_address_space": "cl_memory", "cl_hws": L, "cl_write_operator": "cl_event_break_operator", "cl_read_operator": "cl_event_break_operator", "cl_event_break_operator": "cl_memory_operator", "cl_51core": UC, "cl_cell8": "cl_memory_cell",
               **{k: "cl_time_measurer" for k in MEASURE[1:]}}


def machine():
    return Mach(fields=FIELDS, classes=[UC, L, "cl_hws", "brk_coll", "cl_irqs", "cl_ticker", "cl_hw", "cl_brk", "cl_fetch_brk", "cl_ev_brk", "cl_it_src", "it_level", "cl_sim", "cl_app", "cl_commander", "cl_console_base", "cl_memory_cell",
                                        "cl_address_space", "cl_write_operator", "cl_read_operator", "cl_cell8", *MEASURE], tag="uc",
                probes={"app": "application", "=INSIDE": "HWF_INSIDE", "=FB": "CELL_FETCH_BRK", "=GO": "SIM_GO", "=stGO": "stGO", "=stIDLE": "stIDLE", "=stPD": "stPD",
                        "=ANY": "TICK_ANY", "=INISR": "TICK_INISR", "=IDLE": "TICK_IDLE", "=HALT": "TICK_HALT", "=resGO": "resGO", "=resBP": "resBREAKPOINT",
                        "=resINV": "resINV_INST", "=resND": "resNOT_DONE", "=resSJ": "resSELFJUMP", "=resSTEP": "resSTEP", "=resEV": "resEVENTBREAK", "=resSTOP": "resSTOP",
                        "=DYN": "brkDYNAMIC", "=eNONE": "brkNONE", **{"=e" + k: "brk" + v for k, v in dict(W="WRITE", WX="WXRAM", WI="WIRAM", WS="WSFR", R="READ", RX="RXRAM", RC="RCODE", RI="RIRAM", RS="RSFR").items()}, "=brkEVENT": "brkEVENT"})


def pool(c, name, n, size, fields, null=None):
    """A list `name` of n elements, element k the k-th record of a pool (null(k): no element there). -> address of the list"""
    st = 1 << (size - 1).bit_length()
    base = c.region(name + ".pool", st, z3.ZeroExt(32, n), fields)
    ent = lambda k: base + z3.ZeroExt(32, bv(k, 32)) * st
    at = (lambda k: ent(k)) if null is None else (lambda k: z3.If(null(bv(k, 32)), z3.BitVecVal(0, 64), ent(k)))
    items = c.region(name + ".items", 8, z3.ZeroExt(32, n), {0: (8, lambda s, i: at(i))})
    return ent, at, items


def lst(c, name, fields, size, cls=L, null=None, **k):
    n = c.var("n_" + name, 32)
    c.assume(z3.ULT(n, MAX))
    c.keep_small(z3.ULT(n, 4))
    ent, at, items = pool(c, name, n, size, fields, null)
    a = c.obj(name, cls, count=n, Items=items, Limit=c.var("lim_" + name, 32), **k)
    return a, n, ent, at


def uc(c, **k):
    c.uc = c.obj("uc", UC, **k)
    return c.uc


def f64(x):
    return x if z3.is_fp(x) else z3.fpBVToFP(bv(x, 64), z3.Float64())


RNE = z3.RNE()


def machine51():
    return Mach(sim="s51", includes=["sim51cl.h", "uc51cl.h", "interruptcl.h", "regs51.h"], fields=FIELDS + [("cl_51core", "sfr"), ("cl_51core", "interrupt"), ("cl_interrupt", "was_reti")],
                classes=[UC, L, "cl_irqs", "cl_ticker", "cl_it_src", "it_level", "cl_sim", "cl_app", "cl_commander", "cl_51core", "cl_interrupt", "cl_address_space"], tag="uc51",
                probes={"=stGO": "stGO", "=stIDLE": "stIDLE", "=resGO": "resGO", "=resINTR": "resINTERRUPT", "=IE": "IE", "=PCON": "PCON", "=IP": "IP", "=IDL": "bmIDL"})


def units5(M):
    U = []
    V = M.img.val

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))

    # ------------------------------------------------------------ one counter
    def pre_t(c):
        c.t = c.obj("ticker", "cl_ticker")
        c.nr, c.time = c.var("nr", 32), z3.fpBVToFP(c.var("time", 64), z3.Float64())
        return args(c, c.t, c.nr, c.time)

    def post_t(c, e):
        up = c.fld("ticker", "dir") >= 0
        tk = W(c.fld("ticker", "ticks"))
        rt = f64(c.fld("ticker", "rtime"))
        d = z3.SignExt(32, c.nr)
        e.set("ticker", "ticks", z3.If(up, tk + d, tk - d))
        e.any("ticker", "rtime")
        e.goal("the time moves by the time given", f64(e.fld("ticker", "rtime")) == z3.If(up, z3.fpAdd(RNE, rt, c.time), z3.fpSub(RNE, rt, c.time)))
        e.calls()
    u("ticker.tick", "cl_ticker::tick(int, double)", pre_t, post_t)

    # ------------------------------------------------------------ every counter
    def pre_c(c):
        c.x = c.var("x", 32)
        c.typ, c.run, c.nul = c.array("type", 32), c.array("run", 8), z3.Function("none", z3.BitVecSort(32), z3.BoolSort())
        F = M.fields("cl_ticker")
        c.cnt, c.n, c.ent, c.at = lst(c, "counters", {0: (8, M.img.sym["_ZTV9cl_ticker"] + 16), F["type"][0]: (4, c.typ), F["run"][0]: (1, c.run)},
                                      c.sizeof("cl_ticker"), null=lambda k: c.nul(k))
        c.il = c.obj("level", "it_level")
        c.lev = c.obj("levels", L)
        uc(c, counters=c.cnt, it_levels=c.lev)
        c.cyc, c.cpc = c.var("cycles", 32), c.var("cpc", 32)
        c.st.ghost["ticked"] = I32(0)
        return args(c, c.uc, c.cyc)

    def ticks(c):
        t, st = c.st.mem(c.typ, c.x), bv(c.fld("uc", "state"), 32)
        run = z3.And(z3.Not(c.nul(c.x)), c.st.mem(c.run, c.x) != 0)
        return z3.And(run, z3.Or(t == V["ANY"], z3.And(t == V["INISR"], bv(c.fld("level", "level"), 32) >= 0), z3.And(t == V["IDLE"], st == V["stIDLE"]),
                                 z3.And(t == V["HALT"], st == V["stPD"])))

    def tick(c, st, this, nr, time):
        c.ex.side.append(("a counter is ticked by the clocks of the cycles", list(st.pc), bv(nr, 32) == c.cyc * c.cpc, st))
        c.ex.side.append(("a counter is ticked by the time of the clocks", list(st.pc),
                          f64(time) == z3.fpMul(RNE, z3.fpSignedToFP(RNE, c.cyc * c.cpc, z3.Float64()), f64(c.fld("uc", "xtal_tick"))), st))
        st.ghost["ticked"] = z3.simplify(st.ghost["ticked"] + z3.If(W(this) == c.ent(c.x), I32(1), I32(0)))
        return 0
    TICK = callee(r"cl_ticker::tick\(", "tick", tick, 0)
    TOP = callee(r"cl_list::top\(", "top", lambda c, st, this: (c.ex.side.append(("the level in service", list(st.pc), W(this) == c.lev, st)), c.il)[1], 64)
    CPC = callee(r"cl_\w*::clock_per_cycle\(", "cpc", lambda c, st, this: c.cpc, 32)

    def post_c(c, e):
        e.goal("a counter in the list is ticked once if it runs and its type applies, not at all otherwise",
               e.st.ghost["ticked"] == z3.If(z3.And(z3.ULT(c.x, c.n), ticks(c)), I32(1), I32(0)))
        e.set("uc", "inst_ticks", bv(c.fld("uc", "inst_ticks"), 32) + c.cyc)
        e.ret_is(0)

    def mod_c(c, st, n):
        st.ghost["ticked"] = fresh("ticked", 32)
    fn = UC + "::tick(int)"
    u("uc.tick", fn, pre_c, post_c, [TICK, TOP, CPC],
      {fn: Loop(lambda c, st, n: [("each counter before was ticked as it must", st.ghost["ticked"] == z3.If(z3.And(z3.ULT(c.x, idx32(n)), ticks(c)), I32(1), I32(0))),
                                  ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))], mod_c)})

    # ------------------------------------------------------------ cycles of an opcode
    def pre_tt(c):
        uc(c)
        c.code = c.var("code", 32)
        c.assume(z3.ULT(c.code, MAX))
        c.T = c.array("table", 8)
        c.tab = c.region("table", 1, z3.BitVecVal(MAX, 64), {0: (1, c.T)})
        c.has = c.bvar("has_table")
        c.r = c.var("r", 32)
        return args(c, c.uc, c.code)

    def post_tt(c, e):
        t = z3.SignExt(24, c.st.mem(c.T, c.code))
        if not e.case(c.has):
            e.calls(("tick_tab", c.uc, c.code), ("tick", c.uc, I32(1)))
            e.ret_is(c.r)
        elif e.case(t != 0):
            e.calls(("tick_tab", c.uc, c.code), ("tick", c.uc, t))
            e.ret_is(c.r)
        else:
            e.calls(("tick_tab", c.uc, c.code))
            e.ret_is(0)
    u("uc.tickt", UC + "::tickt(unsigned int)", pre_tt, post_tt,
      [callee(r"cl_\w*::tick_tab\(", "tick_tab", lambda c, st, this, code: z3.If(c.has, z3.BitVecVal(c.tab, 64), z3.BitVecVal(0, 64)), 64), callee(r"cl_\w*::tick\(int\)", "tick", lambda c, st, this, n: c.r, 32)])

    # ------------------------------------------------------------ the hardware, cycle by cycle
    def pre_h(c):
        c.x = c.var("x", 32)
        c.on, c.flg = c.array("on", 8), c.array("flags", 32)
        F = M.fields("cl_hw")
        c.hws, c.n, c.ent, c.at = lst(c, "hws", {0: (8, M.img.sym["_ZTV5cl_hw"] + 16), F["flags"][0]: (4, c.flg), F["on"][0]: (1, c.on)}, c.sizeof("cl_hw"), cls="cl_hws")
        uc(c, hws=c.hws)
        c.cyc = c.var("cycles", 32)
        c.keep_small(c.cyc < 4)
        c.st.ghost.update(ticked=I32(0), outer=z3.BitVecVal(0, 64))
        return args(c, c.uc, c.cyc)

    def hwticks(c):
        return z3.And(z3.ULT(c.x, c.n), c.st.mem(c.on, c.x) != 0, c.st.mem(c.flg, c.x) & V["INSIDE"] != 0)

    def hwtick(c, st, this, n):
        c.ex.side.append(("one cycle at a time", list(st.pc), bv(n, 32) == 1, st))
        st.ghost["ticked"] = z3.simplify(st.ghost["ticked"] + z3.If(W(this) == c.ent(c.x), I32(1), I32(0)))
        return 0

    def inv_o(c, st, n):
        return [("every hardware had its ticks", st.ghost["ticked"] == z3.If(hwticks(c), idx32(n), I32(0))),
                ("no more rounds than cycles", z3.ULE(n, z3.If(c.cyc > 0, z3.ZeroExt(32, c.cyc), z3.BitVecVal(0, 64))))]

    def mod_o(c, st, n):
        st.ghost["ticked"], st.ghost["outer"] = fresh("ticked", 32), n

    def inv_i(c, st, n):
        return [("hardware before had its tick", st.ghost["ticked"] == z3.If(hwticks(c), idx32(st.ghost["outer"]) + z3.If(z3.ULT(c.x, idx32(n)), I32(1), I32(0)), I32(0))),
                ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))]

    def mod_i(c, st, n):
        st.ghost["ticked"] = fresh("ticked", 32)

    def post_h(c, e):
        e.goal("every hardware that is on and inside is ticked once per cycle, the others not at all",
               e.st.ghost["ticked"] == z3.If(z3.And(hwticks(c), c.cyc > 0), c.cyc, I32(0)))
        ex = e.log("extra")
        e.goal("the rest of the hardware is told once", len(ex) == 1)
        e.goal("all cycles are told", z3.And(W(ex[0][1][0]) == c.uc, bv(ex[0][1][1], 32) == c.cyc) if ex else False)
        e.ret_is(0)
    fn = UC + "::tick_hw(int)"
    u("uc.tick_hw", fn, pre_h, post_h, [callee(r"cl_\w*::tick\(int\)", "tick", hwtick, 32), callee(r"cl_\w*::do_extra_hw\(", "extra", None, 0)],
      {fn: {0: Loop(inv_o, mod_o), 1: Loop(inv_i, mod_i)}})

    # ------------------------------------------------------------ around an instruction
    EV = callee(r"cl_list::disconn_all\(", "disconn_all", None, 0)
    for f in ("pre_inst", "pre_emu"):
        def post(c, e, f=f):
            e.set("uc", "inst_exec", 1)
            e.set("uc", "vc.inst", bv(c.fld("uc", "vc.inst"), 32) + 1)
            e.set("uc", "inst_ticks", 0)
            if f == "pre_inst":
                e.set("uc", "repeating", 0)
            e.calls(("disconn_all", c.ev))

        def pre(c):
            c.ev = c.obj("events", L)
            return args(c, uc(c, events=c.ev))
        u("uc." + f, f"{UC}::{f}()", pre, post, [EV])

    def pre_po(c):
        c.ev, c.er = c.obj("events", L), c.obj("errors", L)
        return args(c, uc(c, events=c.ev, errors=c.er))

    def post_po(c, e):
        w = [("cpc", None, c.fld("uc", "PC")), ("tick_hw", c.uc, c.fld("uc", "inst_ticks"))]
        if e.case(bv(c.fld("errors", "count"), 32) != 0):
            w.append(("check_errors", c.uc))
        if e.case(bv(c.fld("events", "count"), 32) != 0):
            w.append(("check_events", c.uc))
        e.calls(*w)
        e.set("uc", "inst_exec", 0)
    cs = [callee(r"cl_\w*::W\(", "cpc", None, 32), callee(r"cl_\w*::tick_hw\(", "tick_hw", None, 32), callee(r"cl_\w*::check_errors\(", "check_errors", None, 0),
          callee(r"cl_\w*::check_events\(", "check_events", None, 0), callee(r"cl_list::free_all\(", "free_all", None, 0)]
    u("uc.post_inst", UC + "::post_inst()", pre_po, post_po, cs)

    def post_pe(c, e):
        e.calls(("tick_hw", c.uc, c.fld("uc", "inst_ticks")), ("free_all", c.er))
        e.set("uc", "inst_exec", 0)
    u("uc.post_emu", UC + "::post_emu()", pre_po, post_pe, cs)

    def exec_inst(c, st, this):
        c.ex.side.append(("the address of the instruction is kept", list(st.pc), bv(c.fld("uc", "instPC", st), 32) == bv(c.fld("uc", "PC"), 32), st))
        c.ex._put(st, c.addr("uc", "PC"), 4, c.newpc)
        return c.r

    def pre_di(c):
        uc(c)
        c.newpc, c.r, c.ri = c.var("newpc", 32), c.var("res", 32), c.var("res_int", 32)
        c.rep1 = c.var("repeating1", 8)
        return args(c, c.uc)

    def post_di(c, e, emu=False):
        a, b = ("pre_emu", "post_emu") if emu else ("pre_inst", "post_inst")
        hist = [] if emu else [("save_hist", c.uc)]
        pc = bv(c.fld("uc", "PC"), 32)
        if e.case(bv(c.fld("uc", "state"), 32) == V["stGO"]):
            w = hist + [(a, c.uc), ("exec_inst", c.uc), (b, c.uc)]
            r = c.r
            npc = z3.If(r == V["resINV"], pc, c.newpc)
            e.set("uc", "PC", npc)
            e.set("uc", "instPC", pc)
            ipc = pc
        else:
            w = hist + [(b, c.uc)]
            r, npc, ipc = I32(V["resGO"]), pc, bv(c.fld("uc", "instPC"), 32)
        selfj = z3.And(r == V["resGO"], npc == ipc, bv(c.fld("uc", "stop_selfjump"), 8) != 0, bv(c.fld("uc", "repeating"), 8) == 0)
        if not emu and e.case(selfj):
            e.ret_is(V["resSJ"])
        elif e.case(z3.Or(r == V["resGO"], r == V["resND"])):
            w.append(("do_interrupt", c.uc))
            e.ret_is(z3.If(c.ri == V["resGO"], r, c.ri))
        else:
            e.ret_is(r)
        e.calls(*w)
    cs = [callee(r"cl_\w*::exec_inst\(\)", "exec_inst", exec_inst, 32), callee(r"cl_\w*::do_interrupt\(", "do_interrupt", lambda c, st, this: c.ri, 32),
          *[callee(r"cl_\w*::%s\(" % f, f, None, 0) for f in ("pre_inst", "post_inst", "pre_emu", "post_emu", "save_hist")]]
    u("uc.do_inst", UC + "::do_inst()", pre_di, post_di, cs)
    u("uc.do_emu", UC + "::do_emu()", pre_di, lambda c, e: post_di(c, e, True), cs)

    # ------------------------------------------------------------ fetch
    def pre_f(c, rom=True):
        c.rom = c.obj("rom", "cl_address_space") if rom else 0
        c.v = c.var("code", 32)
        uc(c, rom=c.rom)
        c.out = c.obj("out", nbytes=8)
        return args(c, c.uc)
    READ = callee(r"cl_\w*::read\(unsigned int\)", "read", lambda c, st, this, a: c.v, 32)

    def post_f(c, e):
        pc = bv(c.fld("uc", "PC"), 32)
        e.calls(("read", c.rom, pc))
        e.set("uc", "PC", (pc + 1) & bv(c.fld("uc", "PCmask"), 32))
        e.set("uc", "vc.fetch", bv(c.fld("uc", "vc.fetch"), 32) + 1)
        e.goal("the code read", W(e.ret) == z3.ZeroExt(32, c.v) if not isinstance(e.ret, z3.BitVecRef) or e.ret.size() == 64 else e.ret == c.v)
    u("uc.fetch()", UC + "::fetch()", pre_f, post_f, [READ])
    u("uc.fetch() without rom", UC + "::fetch()", lambda c: pre_f(c, False), lambda c, e: (e.ret_is(0), e.calls()), [READ])

    def pre_fc(c):
        pre_f(c)
        c.hit = c.bvar("hit")
        return args(c, c.uc, c.out)

    def post_fc(c, e):
        e.goal("a breakpoint is told", boolv(e.ret) == c.hit)
        if e.case(c.hit):
            e.calls(("do_brk", c.uc))
        else:
            e.calls(("do_brk", c.uc), ("fetch", c.uc))
            e.set_addr(c.out, 4, c.v)
    u("uc.fetch(code)", UC + "::fetch(unsigned int*)", pre_fc, post_fc,
      [callee(r"cl_\w*::do_brk\(", "do_brk", lambda c, st, this: c.hit, 1), callee(r"cl_\w*::fetch\(\)", "fetch", lambda c, st, this: c.v, 32)])

    # ------------------------------------------------------------ the list of counters
    NB = 0x7f0000000000

    def counters(c):
        c.x = c.var("x", 32)
        B = z3.BoolSort()
        c.nul, c.has, c.eq = (z3.Function(f, z3.BitVecSort(32), B) for f in ("none", "named", "same_name"))
        c.cnt, c.n, c.ent, c.at = lst(c, "counters", {0: (8, M.img.sym["_ZTV9cl_ticker"] + 16)}, c.sizeof("cl_ticker"), null=lambda k: c.nul(k))
        uc(c, counters=c.cnt)
        c.nr = c.var("nr", 32)
        c.nam = c.obj("name", nbytes=8)
        c.ix = lambda st, p: idx32(z3.UDiv(W(p) - c.ent(I32(0)), W(c.ent(I32(1)) - c.ent(I32(0)))))
        c.match = lambda k: z3.And(z3.Not(c.nul(k)), c.has(k), c.eq(k))

    def get_name(c, st, this, *a):
        k = c.ix(st, this)
        return z3.If(c.has(k), NB + 16 * z3.ZeroExt(32, k), z3.BitVecVal(0, 64))

    def strcmp(c, st, a, b):
        c.ex.side.append(("compared with the name asked for", list(st.pc), W(b) == c.nam, st))
        return z3.If(c.eq(idx32(z3.LShR(W(a) - NB, 4))), I32(0), c.var("differs", 32) | 1)
    NAMES = [callee(r"cl_\w*::get_name\(\)", "get_name", get_name, 64), callee(r"^strcmp", "strcmp", strcmp, 32)]
    PUT = callee(r"cl_list::put_at\(", "put_at", None, 0)
    ADD = callee(r"cl_list::add\(void\*\)", "add", None, 32)
    DEL = callee(r"cl_\w*::~cl_\w*\(", "delete", None, 0)

    def named(name, fn, pre, post, cs, start=0, stop=lambda c, k: c.match(k)):
        def inv(c, st, n):
            return [("none before is it", z3.Implies(z3.And(z3.UGE(c.x, start), z3.ULT(c.x, idx32(n) + start)), z3.Not(stop(c, c.x)))),
                    ("the end is not passed", z3.Or(n == 0, z3.ULE(n + start, z3.ZeroExt(32, c.n))))]
        u(name, UC + "::" + fn, pre, post, cs, {UC + "::" + fn: Loop(inv)})

    def pre_g(c):
        counters(c)
        c.assume(c.nr >= 0)
        return args(c, c.uc, c.nr)
    u("uc.get_counter(nr)", UC + "::get_counter(int)", pre_g, lambda c, e: (e.ret_is(z3.If(z3.ULT(c.nr, c.n), c.at(c.nr), z3.BitVecVal(0, 64)), 64), e.calls()))

    def pre_gn(c):
        counters(c)
        return args(c, c.uc, c.nam)

    def first(c, k, f, start=0):
        """k is the first index where f holds."""
        return z3.And(z3.UGE(k, start), z3.ULT(k, c.n), f(k), z3.Implies(z3.And(z3.UGE(c.x, start), z3.ULT(c.x, k)), z3.Not(f(c.x))))

    def post_gn(c, e):
        if e.case(W(e.ret) != 0):
            e.goal("the first counter of that name", z3.And(W(e.ret) == c.ent(c.ix(e.st, e.ret)), first(c, c.ix(e.st, e.ret), c.match)))
        else:
            e.goal("no counter has that name", z3.Implies(z3.ULT(c.x, c.n), z3.Not(c.match(c.x))))
    named("uc.get_counter(name)", "get_counter(char const*)", pre_gn, post_gn, NAMES)

    def post_d(c, e):
        if not e.case(z3.ULT(c.nr, c.n)):
            e.calls()
        elif e.case(c.nul(c.nr)):
            e.calls(("put_at", c.cnt, c.nr, z3.BitVecVal(0, 64)))
        else:
            e.calls(("delete", c.ent(c.nr)), ("put_at", c.cnt, c.nr, z3.BitVecVal(0, 64)))
    u("uc.del_counter(nr)", UC + "::del_counter(int)", pre_g, post_d, [PUT, DEL])

    def post_dn(c, e):
        d, p = e.log("delete"), e.log("put_at")
        if not d and not p:
            e.goal("no counter has that name", z3.Implies(z3.ULT(c.x, c.n), z3.Not(c.match(c.x))))
            return
        e.goal("one counter is deleted and taken out", len(d) == 1 and len(p) == 1)
        if len(d) == 1 and len(p) == 1:
            k = bv(p[0][1][1], 32)
            e.goal("the first counter of that name", z3.And(W(d[0][1][0]) == c.ent(k), first(c, k, c.match)))
            e.goal("nothing is left in its place", z3.And(W(p[0][1][0]) == c.cnt, W(p[0][1][2]) == 0))
    named("uc.del_counter(name)", "del_counter(char const*)", pre_gn, post_dn, NAMES + [PUT, DEL])

    def pre_ac(c):
        counters(c)
        c.tk = c.obj("ticker", "cl_ticker")
        c.assume(c.nr >= 0, z3.ULT(c.nr, MAX))
        c.keep_small(z3.ULT(c.nr, 4))
        c.st.ghost["added"] = I32(0)
        return args(c, c.uc, c.tk, c.nr)

    def add0(c, st, this, x):
        c.ex.side.append(("an empty place is added", list(st.pc), z3.And(W(this) == c.cnt, W(x) == 0), st))
        a = c.addr("counters", "count")
        c.ex._put(st, a, 4, norm(bv(c.ex.ld(st, a, 4), 32) + 1))
        return 0

    def post_ac(c, e):
        p = e.log("put_at")
        cnt = bv(e.fld("counters", "count"), 32)
        e.any("counters", "count")
        e.goal("there are as many places as needed, no more", cnt == z3.If(z3.UGT(c.n, c.nr), c.n, c.nr + 1))
        e.goal("the counter is put in its place", z3.And(W(p[0][1][0]) == c.cnt, bv(p[0][1][1], 32) == c.nr, W(p[0][1][2]) == c.tk) if len(p) == 1 else False)
    fn = UC + "::add_counter(cl_ticker*, int)"
    cnow = lambda c, st: bv(c.ex.ld(st, c.addr("counters", "count"), 4), 32)
    u("uc.add_counter(nr)", fn, pre_ac, post_ac, [PUT, callee(r"cl_list::add\(void\*\)", "add", add0, 32)],
      {fn: Loop(lambda c, st, n: [("places so far", z3.And(cnow(c, st) == c.n + idx32(n), z3.Or(n == 0, z3.ULE(c.n + idx32(n), c.nr + 1)), z3.ULE(n, MAX)))],
                lambda c, st, n: c.havoc(st, "counters", "count"))})

    def pre_aa(c):
        counters(c)
        c.tk = c.obj("ticker", "cl_ticker")
        return args(c, c.uc, c.tk, c.nam)

    def post_aa(c, e):
        p, a = e.log("put_at"), e.log("add")
        free = lambda k: c.nul(k)
        if p:
            k = bv(p[0][1][1], 32)
            e.goal("the first free place after 0 is taken", z3.And(W(p[0][1][0]) == c.cnt, W(p[0][1][2]) == c.tk, first(c, k, free, 1), c.n != 0) if len(p) == 1 and not a else False)
        else:
            e.goal("no place after 0 is free", z3.Implies(z3.And(z3.UGE(c.x, 1), z3.ULT(c.x, c.n)), z3.Not(free(c.x))))
            if e.case(c.n == 0):
                e.calls(("add", c.cnt, z3.BitVecVal(0, 64)), ("add", c.cnt, W(c.tk)))
            else:
                e.calls(("add", c.cnt, W(c.tk)))
    named("uc.add_counter(name)", "add_counter(cl_ticker*, char const*)", pre_aa, post_aa, [PUT, ADD], 1, lambda c, k: c.nul(k))

    # ------------------------------------------------------------ limits in time
    def pre_m(c, cls, u=True):
        uc(c)
        c.tk = c.obj("ticks", "cl_ticker")
        c.st.ov[c.addr("uc", "ticks")] = (8, c.tk)
        c.m = c.obj("measurer", cls, uc=c.uc if u else 0)
        c.v = c.var("value", 64)
        c.t = c.var("now", 64)
        return args(c, c.m)
    now = {"cl_time_measurer": lambda c: z3.BitVecVal(0, 64), "cl_time_clk": lambda c: W(c.fld("ticks", "ticks")),
           "cl_time_vclk": lambda c: z3.ZeroExt(32, bv(c.fld("uc", "vc.fetch"), 32) + bv(c.fld("uc", "vc.rd"), 32) + bv(c.fld("uc", "vc.wr"), 32)),
           "cl_time_fclk": lambda c: z3.ZeroExt(32, bv(c.fld("uc", "vc.fetch"), 32)), "cl_time_rclk": lambda c: z3.ZeroExt(32, bv(c.fld("uc", "vc.rd"), 32)),
           "cl_time_wclk": lambda c: z3.ZeroExt(32, bv(c.fld("uc", "vc.wr"), 32))}
    for cls, f in now.items():
        u(f"{cls}.now", cls + "::now()", lambda c, cls=cls: pre_m(c, cls), lambda c, e, f=f: (e.ret_is(f(c), 64), e.calls()))
    NOW = callee(r"cl_\w*::now\(\)", "now", lambda c, st, this: c.t, 64)
    T = "cl_time_measurer::"
    u("measurer.reached", T + "reached()", lambda c: pre_m(c, "cl_time_clk"),
      lambda c, e: e.goal("the limit is set and reached", boolv(e.ret) == z3.And(W(c.fld("measurer", "to_reach")) != 0, z3.UGE(c.t, W(c.fld("measurer", "to_reach"))))), [NOW])
    u("measurer.from_now", T + "from_now(unsigned long)", lambda c: pre_m(c, "cl_time_clk") + [c.v], lambda c, e: e.set("measurer", "to_reach", c.t + c.v), [NOW])
    u("measurer.set_reach", T + "set_reach(unsigned long)", lambda c: pre_m(c, "cl_time_clk") + [c.v], lambda c, e: e.set("measurer", "to_reach", c.v))

    def pre_sw(c):
        uc(c)
        c.m = c.obj("measurer", "cl_time_clk")
        return args(c, c.uc, c.m)

    def post_sw(c, e):
        old = W(c.fld("uc", "stop_at_time"))
        e.set("uc", "stop_at_time", W(c.m))
        e.calls(*([("delete", old)] if e.case(old != 0) else []))
    def pre_sw1(c):
        pre_sw(c)
        c.m0 = c.obj("old", "cl_time_vclk")
        c.st.ov[c.addr("uc", "stop_at_time")] = (8, c.m0)
        return c.args

    def pre_sw0(c):
        pre_sw(c)
        c.st.ov[c.addr("uc", "stop_at_time")] = (8, 0)
        return c.args
    u("uc.stop_when", UC + "::stop_when(cl_time_measurer*)", pre_sw0, lambda c, e: (e.set("uc", "stop_at_time", W(c.m)), e.calls()), [DEL])
    u("uc.stop_when again", UC + "::stop_when(cl_time_measurer*)", pre_sw1, lambda c, e: (e.set("uc", "stop_at_time", W(c.m)), e.calls(("delete", W(c.m0)))), [DEL])

    # ------------------------------------------------------------ one step of the simulation
    def pre_s(c, limit=True):
        uc(c)
        c.m = c.obj("measurer", "cl_time_clk") if limit else 0
        c.st.ov[c.addr("uc", "stop_at_time")] = (8, c.m)
        c.sim = c.obj("sim", "cl_sim", uc=c.uc)
        c.r, c.over = c.var("res", 32), c.bvar("reached")
        return args(c, c.sim)

    def post_s(c, e, limit=True):
        d, t = W(c.fld("sim", "steps_done")), W(c.fld("sim", "steps_todo"))
        w = [("do_inst", c.uc)]
        e.set("sim", "steps_done", d + 1)
        if e.case(d == 0):
            e.any("sim", "start_at")
            w = [("dnow",)] + w
        if e.case(c.r >= V["resSTOP"]):
            w.append(("stop", c.sim, c.r))
        if e.case(z3.And(t != 0, z3.UGE(d + 1, t))):
            w.append(("stop", c.sim, I32(V["resSTEP"])))
        if limit:
            w.append(("reached", c.m))
            if e.case(c.over):
                w += [("delete", c.m), ("stop", c.sim, I32(V["resBP"]))]
                e.set("uc", "stop_at_time", 0)
        e.calls(*w)
        e.ret_is(0)
    cs = [callee(r"cl_\w*::do_inst\(", "do_inst", lambda c, st, this: c.r, 32), callee(r"cl_\w*::stop\(int\)", "stop", None, 0), callee(r"cl_\w*::reached\(", "reached", lambda c, st, this: c.over, 1), DEL,
          callee(r"^dnow\(", "dnow", lambda c, st: z3.fpBVToFP(c.var("dnow", 64), z3.Float64()), 64)]
    u("sim.step", "cl_sim::step()", pre_s, post_s, cs)
    u("sim.step no time limit", "cl_sim::step()", lambda c: pre_s(c, False), lambda c, e: post_s(c, e, False), cs)

    def pre_st(c, con=True):
        uc(c)
        c.tk = c.obj("ticks", "cl_ticker")
        c.st.ov[c.addr("uc", "ticks")] = (8, c.tk)
        c.app = c.obj("app", "cl_app")
        c.cmd = c.obj("cmd", "cl_commander")
        c.con = c.obj("con", "cl_console_base") if con else 0
        c.sim = c.obj("sim", "cl_sim", uc=c.uc, app=c.app)
        c.todo = c.var("todo", 64)
        return args(c, c.sim, c.con, c.todo)

    def post_st(c, e):
        e.set("sim", "state", bv(c.fld("sim", "state"), 32) | V["GO"])
        e.set("sim", "start_tick", W(c.fld("ticks", "ticks")))
        e.set("sim", "steps_done", 0)
        free = z3.And(c.todo == 0, W(c.fld("uc", "stop_at_time")) == 0)
        e.set("sim", "steps_todo", z3.If(free, z3.ZeroExt(32, bv(c.fld("sim", "exec_limit"), 32)), c.todo))
    cs = [callee(r"cl_\w*::get_commander\(", "get_commander", lambda c, st, this: c.cmd, 64), callee(r"cl_\w*::set_flag\(", "set_flag", None, 0), callee(r"cl_\w*::freeze\(", "freeze", None, 0),
          callee(r"cl_\w*::update_active\(", "update_active", None, 0)]
    for con in (True, False):
        u("sim.start" + ("" if con else " without console"), "cl_sim::start(cl_console_base*, unsigned long)", lambda c, con=con: pre_st(c, con), post_st, cs)

    def pre_sl(c):
        c.sim = c.obj("sim", "cl_sim")
        c.lim = c.var("limit", 32)
        return args(c, c.sim, c.lim)

    def post_sl(c, e):
        e.set("sim", "exec_limit", c.lim)
        if e.case(c.lim != 0):
            e.set("sim", "steps_todo", z3.ZeroExt(32, c.lim))
            e.set("sim", "steps_done", 0)
    u("sim.set_limit", "cl_sim::set_limit(unsigned int)", pre_sl, post_sl)

    # ------------------------------------------------------------ how they start
    def pre_ct(c):
        t = c.obj("ticker", "cl_ticker", vptr=0)
        c.d, c.ty, c.us = c.var("dir", 32), c.var("type", 32), c.bvar("user_made")
        return [t, c.d, c.ty, c.obj("text", nbytes=8), c.us]

    def post_ct(c, e):
        e.any("ticker", "rtime")
        e.goal("no time has passed", f64(e.fld("ticker", "rtime")) == z3.FPVal(0.0, z3.Float64()))
        e.set_addr(c.objs["ticker"][0], 8, c.vtable("cl_ticker"))
        for f, v in (("dir", c.d), ("type", c.ty), ("ticks", z3.BitVecVal(0, 64)), ("run", z3.BitVecVal(1, 8)), ("user", z3.If(c.us, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))):
            e.set("ticker", f, v)
    NAME = callee(r"cl_base::set_name\(", "set_name", lambda c, st, t, n: 0x5000, 64)
    u("a new ticker", "cl_ticker::cl_ticker(int, ticker_type, char const*, bool)", pre_ct, post_ct, [callee(r"cl_base::cl_base\(\)", "base", None, 0), NAME])

    def post_ch(c, e):
        e.loose.update(range(c.h, c.h + c.sizeof("cl_hw")))
        e.goal("it is switched on", bv(c.ex.ld(e.st, c.addr("hw", "on"), 1), 8) == 1)
        e.goal("and is one of the simulated chip", bv(c.ex.ld(e.st, c.addr("hw", "flags"), 4), 32) == V["INSIDE"])
    lib = [callee(r"^%s(\(|$)" % f, f, lambda c, st, *a, v=v: v, w) for f, v, w in (("strdup", 0x5100, 64), ("strlen", 3, 64), ("malloc", 0x5200, 64), ("sprintf", 3, 32), ("free", 0, 0))]

    def pre_ch(c):
        c.h = c.obj("hw", "cl_hw", vptr=0)
        return [c.h, c.obj("uc", UC), c.var("category", 32), c.var("id", 32), 0]
    u("a new hw element", "cl_hw::cl_hw(cl_uc*, hw_cath, int, char const*)", pre_ch, post_ch,
      [callee(r"cl_guiobj::cl_guiobj\(\)", "base", lambda c, st, t: c.ex._put(st, norm(t), 8, c.vtable("cl_hw")), 0), NAME, callee(r"cl_\w*::get_name\(", "get_name", lambda c, st, *a: 0x5300, 64),
       callee(r"^operator new\(", "new", lambda c, st, n: 0x70001000, 64), callee(r"cl_list::cl_list\(", "list", None, 0), *lib])
    return U


def run4(rep):
    from .. import fn
    fn.run(rep, machine, units4)


def run9(rep):
    from .. import fn
    fn.run(rep, machine, units9)
    fn.run(rep, machine51, units51)


def run5(rep):
    from .. import fn
    fn.run(rep, machine, units5)


def units51(M):
    return units9(M, True)


def units9(M, core51=False):
    U = []
    V = M.img.val

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))
    S = "cl_it_src::"
    g = lambda c, f: c.fld("src", f)
    b8 = lambda c, f: bv(g(c, f), 8) != 0

    def src(c, ie=True, sc=True, parent=0, same=False, **k):
        c.ie = c.obj("ie", "cl_memory_cell") if ie else 0
        c.sc = c.ie if same else c.obj("rq", "cl_memory_cell") if sc else 0
        c.vie, c.vsc = c.var("ie_reg", 32), c.var("rq_reg", 32)
        if same:
            c.vsc = c.vie
        uc(c)
        c.src = c.obj("src", "cl_it_src", ie_cell=c.ie, src_cell=c.sc, parent=parent, uc=c.uc, **k)
        return args(c, c.src)
    GET = callee(r"cl_\w*::(get|read)\(\)", "get", lambda c, st, this: z3.If(W(this) == c.ie, c.vie, c.vsc), 32)
    WRITE = callee(r"cl_\w*cell\w*::write\(unsigned int\)", "write", lambda c, st, this, v: bv(v, 32), 32)
    en = lambda c, v=None: ((c.vie if v is None else v) & bv(g(c, "ie_mask"), 32)) == bv(g(c, "ie_value"), 32)
    pe = lambda c, v=None: ((c.vsc if v is None else v) & bv(g(c, "src_mask"), 32)) == bv(g(c, "src_value"), 32)
    for f, h, kw in (("enabled", en, {"ie": False}), ("pending", pe, {"sc": False})):
        u("source." + f, S + f + "()", src, lambda c, e, h=h: e.goal("the masked cell equals the value", boolv(e.ret) == h(c)), [GET])
        u("source." + f + " no cell", S + f + "()", lambda c, kw=kw: src(c, **kw), lambda c, e: (e.goal("no", z3.Not(boolv(e.ret))), e.calls()), [GET])

    def wrote(e):
        return e.log("write")

    def post_rq(c, e, clear=False):
        m = bv(g(c, "src_mask"), 32)
        up = bv(g(c, "src_value"), 32) != 0
        want = z3.If(up, c.vsc & ~m, c.vsc | m) if clear else z3.If(up, c.vsc | m, c.vsc & ~m)
        w = wrote(e)
        if clear and not e.case(b8(c, "clr_bit")):
            e.goal("nothing is written", not w)
            return
        e.goal("the request bits alone change", z3.And(W(w[0][1][0]) == c.sc, bv(w[0][1][1], 32) == want) if len(w) == 1 else False)
    u("source.request", S + "request()", src, post_rq, [GET, WRITE])
    u("source.clear", S + "clear()", src, lambda c, e: post_rq(c, e, True), [GET, WRITE])
    for f in ("request", "clear"):
        u(f"source.{f} no cell", S + f + "()", lambda c: src(c, sc=False), lambda c, e: e.calls(), [GET, WRITE])
    u("source.is_active", S + "is_active()", src, lambda c, e: e.goal("as set", boolv(e.ret) == b8(c, "active")))
    u("source.activate", S + "activate()", src, lambda c, e: e.set("src", "active", 1))
    u("source.deactivate", S + "deactivate()", src, lambda c, e: e.set("src", "active", 0))

    def pre_po(c, slave):
        c.par = c.obj("parent", "cl_it_src") if slave else 0
        c.E, c.P = c.bvar("is_enabled"), c.bvar("is_pending")
        return src(c, parent=c.par)

    def post_po(c, e, slave):
        log = [(x[0], x[1][0]) for x in e.log() if x[0] in ("request", "clear")]
        if slave and e.case(z3.And(c.E, c.P)):
            e.goal("the request is handed over to the parent", [x[0] for x in log] in (["request", "clear"], ["clear", "request"]))
            e.goal("from this source to its parent", z3.And(*[W(a) == (c.par if f == "request" else c.src) for f, a in log]))
        else:
            e.goal("nothing happens", not log)
    B = lambda f, v: callee(r"cl_\w*::%s\(\)" % f, f, lambda c, st, this: getattr(c, v), 1)
    for s in (False, True):
        u("source.pass_over" + (" slave" if s else ""), S + "pass_over()", lambda c, s=s: pre_po(c, s), lambda c, e, s=s: post_po(c, e, s),
          [B("enabled", "E"), B("pending", "P"), callee(r"cl_\w*::request\(\)", "request", None, 0), callee(r"cl_\w*::clear\(\)", "clear", None, 0)])

    def pre_w(c, which, slave=False, same=False):
        r = src(c, parent=c.obj("parent", "cl_it_src") if slave else 0, same=same)
        c.v = c.var("value", 32)
        c.vp = c.obj("val", nbytes=8)
        c.st.ov = {a: x for a, x in c.st.ov.items() if not c.vp <= a < c.vp + 8}
        c.st.ov[c.vp], c.st.ov[c.vp + 4] = (4, c.v), (4, c.var("beyond", 32))
        other = c.obj("other", "cl_memory_cell")
        return r + [{"ie": c.ie, "rq": c.sc, "other": other}[which], c.vp]

    def post_w(c, e, which, slave=False, same=False):
        if slave:
            return
        irq = bv(c.fld("uc", "irq"), 8)
        both = z3.And(en(c, c.v if which == "ie" or same else None), pe(c, c.v if which == "rq" or same else None))
        e.set("uc", "irq", z3.If(both, z3.BitVecVal(1, 8), irq))
        e.goal("the write goes on as it is", z3.BoolVal(not wrote(e)))
    for which in ("ie", "rq", "other"):
        for slave in (False, True):
            u(f"source.write {which}" + (" slave" if slave else ""), S + "write(cl_memory_cell*, unsigned int*)", lambda c, a=which, s=slave: pre_w(c, a, s),
              lambda c, e, a=which, s=slave: post_w(c, e, a, s), [GET, WRITE])
    u("source.write same cell", S + "write(cl_memory_cell*, unsigned int*)", lambda c: pre_w(c, "ie", same=True), lambda c, e: post_w(c, e, "ie", same=True), [GET, WRITE])

    # ------------------------------------------------------------ which one is accepted
    B_ = z3.BoolSort()
    X = z3.BitVecSort(32)

    def sources(c):
        c.x = c.var("x", 32)
        F = M.fields("cl_it_src")
        c.nmi, c.par, c.act, c.nuof, c.sad, c.iem = (c.array(n, w) for n, w in (("nmi", 8), ("parent", 64), ("active", 8), ("nuof", 32), ("addr", 32), ("ie_mask", 32)))
        c.irqs, c.n, c.ent, c.at = lst(c, "irqs", {0: (8, M.img.sym["_ZTV9cl_it_src"] + 16), F["nmi"][0]: (1, c.nmi), F["parent"][0]: (8, c.par), F["active"][0]: (1, c.act),
                                                   F["nuof"][0]: (4, c.nuof), F["addr"][0]: (4, c.sad), F["ie_mask"][0]: (4, c.iem)}, c.sizeof("cl_it_src"), cls="cl_irqs")
        c.en, c.pe = z3.Function("enabled", X, B_), z3.Function("pending", X, B_)
        c.prio = z3.Function("priority", X, X)
        c.ix = lambda st, p: idx32(z3.UDiv(W(p) - c.ent(I32(0)), W(c.ent(I32(1)) - c.ent(I32(0)))))
        c.top = c.bvar("in_service")
        c.lv = c.obj("service", "it_level")
        c.levs = c.obj("levels", L)
        c.app, c.cmd = c.obj("app", "cl_app"), c.obj("cmd", "cl_commander")
        c.sim = c.obj("sim", "cl_sim", app=c.app)
        c.tk = c.obj("ticks", "cl_ticker")
        c.r = c.var("res", 32)
        c.st.ghost.update(passed=I32(0))
    TOP = callee(r"cl_list::top\(", "top", lambda c, st, this: z3.If(c.top, z3.BitVecVal(c.lv, 64), z3.BitVecVal(0, 64)), 64)

    def new(c, st, n):
        c.il = c.obj("new level", "it_level") if not hasattr(c, "il") else c.il
        if "new level" not in [o[2] for o in st.objs]:
            st.objs.insert(0, (c.il, c.sizeof("it_level"), "new level"))
        for a, e in c.st.ov.items():
            if c.il <= a < c.il + c.sizeof("it_level"):
                st.ov.setdefault(a, e)
        return c.il

    def level(c, st, this, lv, ad, pc, s):
        for f, v, n in (("level", lv, 4), ("addr", ad, 4), ("PC", pc, 4), ("source", s, 8)):
            c.ex._put(st, this + M.field("it_level", f)[0], n, norm(v))
        st.ghost["level"] = (lv, ad, pc, s)
        return 0
    CS = [TOP, callee(r"cl_\w*::enabled\(\)", "enabled", lambda c, st, t: c.en(c.ix(st, t)), 1), callee(r"cl_\w*::pending\(\)", "pending", lambda c, st, t: c.pe(c.ix(st, t)), 1),
          callee(r"cl_\w*::clear\(\)", "clear", None, 0), callee(r"cl_\w*::debug\(", "debug", None, 32), callee(r"cl_\w*::get_commander\(", "get_commander", lambda c, st, t: c.cmd, 64),
          callee(r"^object_name", "object_name", None, 64), callee(r"cl_\w*::accept_it\(", "accept_it", lambda c, st, t, il: c.r, 32),
          callee(r"^operator new\(", "new", new, 64), callee(r"it_level::it_level\(", "level", level, 0),
          callee(r"cl_\w*::get_rtime\(", "rtime", lambda c, st, t: z3.fpBVToFP(c.var("rtime", 64), z3.Float64()), 64)]

    def only(e, *names):
        return [x for x in e.log() if x[0] in names]

    def accepted(c, e, k, pr):
        """Source k was accepted: cleared, and a service level for it given to accept_it."""
        cl, ac, lv = e.log("clear"), e.log("accept_it"), e.log("level")
        ok = len(cl) == 1 and len(ac) == 1 and len(lv) == 1
        e.goal("one source is accepted", ok)
        if not ok:
            return
        a = lv[0][1]
        e.goal("its request is cleared", W(cl[0][1][0]) == c.ent(k))
        e.goal("its level and address are entered", z3.And(W(a[0]) == W(ac[0][1][1]), W(ac[0][1][0]) == c.uc, bv(a[1], 32) == pr, bv(a[2], 32) == c.st.mem(c.sad, k),
                                                           bv(a[3], 32) == bv(c.fld("uc", "PC"), 32), W(a[4]) == c.ent(k)))
        if hasattr(c, "il"):
            e.loose.update(range(c.il, c.il + c.sizeof("it_level")))
        e.ret_is(c.r)

    end = lambda c, n: ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))

    if core51:
        U = []
        C51 = "cl_51core"

        def pre_51(c):
            sources(c)
            c.assume(c.top)
            c.sfr, c.irq = c.obj("sfr", "cl_address_space"), c.obj("interrupt", "cl_interrupt")
            c.uc = c.obj("uc", C51, it_sources=c.irqs, it_levels=c.levs, sim=c.sim, ticks=c.tk, sfr=c.sfr, interrupt=c.irq)
            c.vie, c.vpcon = c.var("IE", 32), c.var("PCON", 32)
            # priorities of the family are 0 and 1, of its descendants some more
            c.assume(*[z3.And(c.prio(k) >= 0) for k in (c.x,)])
            return args(c, c.uc)
        p8 = lambda k: z3.ZeroExt(24, z3.Extract(7, 0, k))
        pr = lambda c, k: c.prio(p8(c.st.mem(c.iem, k))) & 0xff

        def fit51(c, k):
            lv = bv(c.fld("service", "level"), 32)
            return z3.And(c.st.mem(c.act, k) != 0, c.en(k), c.pe(k), z3.Or(lv < 0, pr(c, k) > lv))

        def facts(c, st, vals):
            out = []
            for a, p in enumerate(vals):
                if not isinstance(p, int) and p.size() != 64:
                    continue
                k = c.ix(st, p)
                ok = W(p) != 0
                for b, i in enumerate(vals):
                    if b == a or not isinstance(i, int) and i.size() != 32:
                        continue
                    i = bv(i, 32)
                    out.append((("known", a, b), z3.Implies(ok, z3.And(W(p) == c.ent(k), z3.ULT(k, c.n), fit51(c, k), z3.ULT(k, i)))))
                    for d, v in enumerate(vals):
                        if d in (a, b) or not isinstance(v, int) and v.size() != 32:
                            continue
                        v = bv(v, 32)
                        out.append((("level", a, d), z3.If(ok, v == pr(c, k), v == -1)))
                        out.append((("best", a, b, d), z3.Implies(z3.And(z3.ULT(c.x, i), fit51(c, c.x)),
                                                                  z3.And(ok, z3.Or(pr(c, c.x) < v, z3.And(pr(c, c.x) == v, z3.ULE(k, c.x)))))))
            return out

        def post_51(c, e):
            reti = bv(c.fld("interrupt", "was_reti"), 8) != 0
            ac = e.log("accept_it")
            cl = e.log("clear")
            sets = e.log("set")
            if e.case(reti):
                e.set("interrupt", "was_reti", 0)
                e.goal("nothing is accepted right after RETI", not ac and not cl and not sets)
                e.ret_is(V["resGO"])
                return
            if e.case(z3.Extract(7, 7, c.vie) == 0):
                e.goal("nothing is accepted while EA is 0", not ac and not cl and not sets)
                e.ret_is(V["resGO"])
                return
            idle = bv(c.fld("uc", "state"), 32) == V["stIDLE"]
            if ac:
                k = c.ix(e.st, cl[0][1][0]) if cl else I32(0)
                e.goal("not in idle mode", z3.Not(idle))
                e.goal("the accepted source can be accepted", z3.And(z3.ULT(k, c.n), fit51(c, k)))
                e.goal("no other has higher priority, or the same and is polled before",
                       z3.Implies(z3.And(z3.ULT(c.x, c.n), fit51(c, c.x)), z3.Or(pr(c, c.x) < pr(c, k), z3.And(pr(c, c.x) == pr(c, k), z3.ULE(k, c.x)))))
                e.goal("nothing else is set", not sets)
                accepted(c, e, k, pr(c, k))
                return
            e.goal("nothing is cleared", not cl)
            e.ret_is(V["resGO"])
            if sets:        # a source wakes the processor up
                e.goal("idle mode is left", z3.And(idle, len(sets) == 1, W(sets[0][1][0]) == c.sfr, bv(sets[0][1][1], 32) == V["PCON"], bv(sets[0][1][2], 32) == c.vpcon & ~I32(V["IDL"])))
                e.set("uc", "state", V["stGO"])
                e.set("interrupt", "was_reti", 1)
            else:
                e.goal("no source to accept", z3.Implies(z3.ULT(c.x, c.n), z3.Not(fit51(c, c.x))))
        fn = C51 + "::do_interrupt()"
        u("51.do_interrupt", fn, pre_51, post_51,
          CS + [callee(r"cl_51core::priority_of\(", "priority_of", lambda c, st, t, k: c.prio(z3.ZeroExt(24, bv(k, 8))) & 0xff, 32),
                callee(r"cl_\w*::get\(unsigned int\)", "get", lambda c, st, t, a: z3.If(bv(a, 32) == V["IE"], c.vie, z3.If(bv(a, 32) == V["PCON"], c.vpcon, c.var("other_sfr", 32))), 32),
                callee(r"cl_\w*::set\(unsigned int, unsigned int\)", "set", None, 0)],
          {fn: Loop(lambda c, st, n: [end(c, n)], facts=facts)})

        def pre_pr(c):
            c.sfr = c.obj("sfr", "cl_address_space")
            c.uc = c.obj("uc", C51, sfr=c.sfr)
            c.vip, c.m = c.var("IP", 32), c.var("mask", 8)
            return args(c, c.uc, c.m)
        u("51.priority_of", C51 + "::priority_of(unsigned char)", pre_pr, lambda c, e: e.ret_is(z3.If(c.vip & z3.ZeroExt(24, c.m) != 0, I32(1), I32(0))),
          [callee(r"cl_\w*::get\(unsigned int\)", "get", lambda c, st, t, a: (c.ex.side.append(("the priority register", list(st.pc), z3.And(W(t) == c.sfr, bv(a, 32) == V["IP"]), st)), c.vip)[1], 32)])

        def pre_a51(c):
            c.sfr, c.levs, c.l = c.obj("sfr", "cl_address_space"), c.obj("levels", L), c.obj("level", "it_level")
            c.uc = c.obj("uc", C51, sfr=c.sfr, it_levels=c.levs)
            c.vpcon, c.r = c.var("PCON", 32), c.var("res", 32)
            return args(c, c.uc, c.l)

        def post_a51(c, e):
            e.set("uc", "state", V["stGO"])
            for f, a in (("set", (c.sfr, I32(V["PCON"]), c.vpcon & ~I32(V["IDL"]))), ("push", (c.levs, W(c.l))), ("tick", (c.uc, I32(1))), ("lcall", (c.uc, None, bv(c.fld("level", "addr"), 32)))):
                got = e.log(f)
                e.goal("one " + f, len(got) == 1)
                if len(got) == 1:
                    e.goal(f + ": arguments", z3.And(*[bv(y, x.size() if isinstance(x, z3.BitVecRef) else 64) == x for x, y in zip(a, got[0][1]) if x is not None]))
            e.ret_is(z3.If(c.r == V["resGO"], I32(V["resINTR"]), c.r))
        u("51.accept_it", C51 + "::accept_it(it_level*)", pre_a51, post_a51,
          [callee(r"cl_\w*::get\(unsigned int\)", "get", lambda c, st, t, a: z3.If(bv(a, 32) == V["PCON"], c.vpcon, c.var("other_sfr", 32)), 32),
           callee(r"cl_\w*::set\(unsigned int, unsigned int\)", "set", None, 0), callee(r"cl_list::push\(", "push", None, 0), callee(r"cl_\w*::tick\(int\)", "tick", None, 32),
           callee(r"cl_\w*::inst_lcall\(", "lcall", lambda c, st, t, *a: c.r, 32)])
        return U

    def pre_di(c):
        sources(c)
        uc(c, it_sources=c.irqs, it_levels=c.levs, sim=c.sim, ticks=c.tk)
        c.glob, c.main = c.bvar("it_enabled"), c.var("priority_main", 32)
        return args(c, c.uc)

    def fit(c, k):
        m = c.st.mem
        return z3.And(m(c.par, k) == 0, z3.Or(m(c.nmi, k) != 0, c.glob), m(c.act, k) != 0, c.en(k), c.pe(k))

    def above(c, k):
        lv = bv(c.fld("service", "level"), 32)
        ap = z3.If(z3.And(c.top, lv >= 0), lv, c.main)
        return c.prio(z3.ZeroExt(24, z3.Extract(7, 0, c.st.mem(c.nuof, k)))) > ap

    def irq_now(c, st):
        return bv(c.fld("uc", "irq", st), 8) != 0

    def post_di(c, e):
        irq = irq_now(c, e.st)
        e.any("uc", "irq")
        e.goal("every source had the chance to pass its request on", e.st.ghost["passed"] == z3.If(z3.ULT(c.x, c.n), I32(1), I32(0)))
        e.goal("a request that may be served is told", z3.Implies(z3.And(z3.Not(irq), z3.ULT(c.x, c.n)), z3.Not(fit(c, c.x))))
        ac = e.log("accept_it")
        if not ac:
            e.goal("no source to accept", z3.Implies(z3.ULT(c.x, c.n), z3.Not(z3.And(fit(c, c.x), above(c, c.x)))))
            e.goal("nothing is cleared", not e.log("clear"))
            e.ret_is(V["resGO"])
            return
        k = c.ix(e.st, e.log("clear")[0][1][0]) if e.log("clear") else I32(0)
        e.goal("the first source in polling order that can be accepted", z3.And(z3.ULT(k, c.n), fit(c, k), above(c, k), z3.Implies(z3.ULT(c.x, k), z3.Not(z3.And(fit(c, c.x), above(c, c.x))))))
        accepted(c, e, k, c.prio(z3.ZeroExt(24, z3.Extract(7, 0, c.st.mem(c.nuof, k)))))
        s0 = bv(c.fld("uc", "state"), 32)
        e.set("uc", "state", z3.If(s0 == V["stIDLE"], I32(V["stGO"]), s0))

    def passover(c, st, t):
        st.ghost["passed"] = z3.simplify(st.ghost["passed"] + z3.If(W(t) == c.ent(c.x), I32(1), I32(0)))
        return 0
    fn = UC + "::do_interrupt()"
    end = lambda c, n: ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))

    def inv_p(c, st, n):
        return [("passed over once", st.ghost["passed"] == z3.If(z3.ULT(c.x, idx32(n)), I32(1), I32(0))), end(c, n)]

    def inv_d(c, st, n):
        return [("none before can be accepted", z3.Implies(z3.ULT(c.x, idx32(n)), z3.Not(z3.And(fit(c, c.x), above(c, c.x))))),
                ("requests before are told", z3.Implies(z3.And(z3.Not(irq_now(c, st)), z3.ULT(c.x, idx32(n))), z3.Not(fit(c, c.x)))), end(c, n)]
    u("uc.do_interrupt", fn, pre_di, post_di,
      CS + [callee(r"cl_\w*::pass_over\(", "pass_over", passover, 0), callee(r"cl_\w*::it_enabled\(", "it_enabled", lambda c, st, t: c.glob, 1),
            callee(r"cl_\w*::priority_of\(", "priority_of", lambda c, st, t, k: c.prio(z3.ZeroExt(24, bv(k, 8))), 32), callee(r"cl_\w*::priority_main\(", "priority_main", lambda c, st, t: c.main, 32)],
      {fn: {0: Loop(inv_p, lambda c, st, n: st.ghost.update(passed=fresh("passed", 32))), 1: Loop(inv_d, lambda c, st, n: c.havoc(st, "uc", "irq"))}})

    def pre_ai(c):
        c.levs, c.l = c.obj("levels", L), c.obj("level", "it_level")
        return args(c, uc(c, it_levels=c.levs), c.l)
    u("uc.accept_it", UC + "::accept_it(it_level*)", pre_ai, lambda c, e: (e.calls(("push", c.levs, W(c.l))), e.ret_is(V["resGO"])), [callee(r"cl_list::push\(", "push", None, 0)])

    # ------------------------------------------------------------ how one starts
    def pre_cs(c, named):
        c.h = c.obj("itsrc", "cl_it_src", vptr=0)
        c.arg = dict(uc=c.obj("uc", UC), nuof=c.var("nuof", 32), ie_cell=c.obj("ie", "cl_memory_cell"), ie_mask=c.var("ie_mask", 32), src_cell=c.obj("rq", "cl_memory_cell"), src_mask=c.var("src_mask", 32),
                     addr=c.var("addr", 32), clr_bit=c.bvar("clr_bit"), indirect=c.bvar("indirect"))
        return [c.h, *c.arg.values(), c.obj("text", nbytes=8) if named else 0, c.var("poll_priority", 32)]

    def post_cs(c, e):
        a = {k: (z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v) for k, v in c.arg.items()}
        e.set_addr(c.h, 8, c.vtable("cl_it_src"))
        for f, v in (*a.items(), ("ie_value", a["ie_mask"]), ("src_value", a["src_mask"]), ("cid", z3.BitVecVal(0, 8)), ("active", z3.BitVecVal(1, 8)), ("nmi", z3.BitVecVal(0, 8)), ("parent", z3.BitVecVal(0, 64)), ("poll_priority", c.args_pp)):
            e.set("itsrc", f, v if isinstance(v, int) else z3.Extract(8 * M.field("cl_it_src", f)[1] - 1, 0, z3.ZeroExt(64, v)))
    for named in (True, False):
        u("a new source " + ("with a name" if named else "without a name"), "cl_it_src::cl_it_src(cl_uc*, int, cl_memory_cell*, unsigned int, cl_memory_cell*, unsigned int, unsigned int, bool, bool, char const*, int)",
          lambda c, named=named: (lambda r: (setattr(c, "args_pp", r[-1]), r)[1])(pre_cs(c, named)), post_cs,
          [callee(r"cl_hw::cl_hw\(", "base", None, 0), callee(r"cl_base::set_name\(", "set_name", lambda c, st, t, n: 0x5000, 64), callee(r"chars::chars\(", "text", None, 0), callee(r"chars::~chars\(", "untext", None, 0),
           callee(r"chars::operator char const\*\(", "str", lambda c, st, t: 0x5100, 64)])
    order(M, u, "cl_irqs", "cl_it_src", "poll_priority")

    def pre_lv(c):
        c.lv = c.obj("level", "it_level", vptr=0)
        c.arg = [c.var("level", 32), c.var("addr", 32), c.var("PC", 32), c.obj("source", "cl_it_src")]
        return [c.lv, *c.arg]

    def post_lv(c, e):
        e.set_addr(c.lv, 8, c.vtable("it_level"))
        for f, v in zip(("level", "addr", "PC", "source"), c.arg):
            e.set("level", f, v)
    u("a new level", "it_level::it_level(int, unsigned int, unsigned int, cl_it_src*)", pre_lv, post_lv, [callee(r"cl_base::cl_base\(\)", "base", None, 0)])
    return U


def order(M, u, cls, item, field, signed=True):
    """A sorted collection of `item` is ordered by `field`."""
    def pre_k(c):
        c.it = c.obj("item", item)
        return [c.obj("list", cls), c.it]
    u(cls + " is ordered by " + field, cls + "::key_of(void const*) const", pre_k, lambda c, e: e.ret_is(c.addr("item", field), 64))

    def pre_c(c):
        ks = []
        for n in ("first", "second"):
            a = c.obj(n, nbytes=4)
            c.st.ov = {x: v for x, v in c.st.ov.items() if not a <= x < a + 4}
            ks.append(c.var(n + "_key", 32))
            c.st.ov[a] = (4, ks[-1])
            ks[-1] = (a, ks[-1])
        (a, c.k1), (b, c.k2) = ks
        return [c.obj("list", cls), a, b]
    u(cls + " order", cls + "::compare(void const*, void const*)", pre_c,
      lambda c, e: (e.goal("equal", (bv(e.ret, 32) == 0) == (c.k1 == c.k2)), e.goal("less", (bv(e.ret, 32) < 0) == (c.k1 < c.k2)), e.goal("greater", (bv(e.ret, 32) > 0) == (c.k1 > c.k2))))


def units4(M):
    U = []
    V = M.img.val

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))
    K, Cn, O = "cl_brk::", "brk_coll", "brk_coll::"
    B_, X = z3.BoolSort(), z3.BitVecSort(32)

    # ------------------------------------------------------------ one breakpoint
    def brk(c, mem=True, cell=False, cls="cl_fetch_brk"):
        c.mem = c.obj("mem", "cl_address_space") if mem else 0
        c.cell = c.obj("cell", "cl_memory_cell") if cell else 0
        c.cond = c.bvar("condition")
        c.b = c.obj("brk", cls, mem=c.mem, cell=c.cell)
        return args(c, c.b)
    COND = callee(r"cl_\w*::condition\(", "condition", lambda c, st, t: c.cond, 1)

    def post_h(c, e):
        n = bv(c.fld("brk", "cnt"), 32) - 1
        if e.case(n <= 0):
            e.set("brk", "cnt", bv(c.fld("brk", "hit"), 32))
            e.goal("it hits when its condition holds", boolv(e.ret) == c.cond)
        else:
            e.set("brk", "cnt", n)
            e.goal("it does not hit before its count", z3.Not(boolv(e.ret)))
    u("brk.do_hit", K + "do_hit()", lambda c: (brk(c), c.assume(bv(c.fld("brk", "cnt"), 32) > -(1 << 31)), c.args)[2], post_h, [COND])

    def pre_cd(c):
        brk(c)
        c.empty, c.v = c.bvar("no_condition"), c.var("value", 32)
        c.st.ov[M.img.addr["app"]] = (8, c.obj("app", "cl_app"))
        return c.args
    u("brk.condition", K + "condition()", pre_cd, lambda c, e: e.goal("no condition, or one that is not 0", boolv(e.ret) == z3.Or(c.empty, c.v != 0)),
      [callee(r"chars::empty\(", "empty", lambda c, st, t: c.empty, 1), callee(r"cl_\w*::eval\(", "eval", lambda c, st, t, x: c.v, 32), callee(r"chars::chars\(", "copy", None, 0),
       callee(r"chars::~chars\(", "uncopy", None, 0)])

    def post_act(c, e, f, mem, cell):
        w = [x for x in e.log() if x[0] in ("set_brk", "del_brk")]
        if not mem and not cell:
            e.goal("nothing to do", not w)
            return
        e.goal("one place is told", len(w) == 1 and w[0][0] == f)
        if len(w) == 1:
            a = w[0][1]
            e.goal("this breakpoint at its address", z3.And(W(a[0]) == c.mem, bv(a[1], 32) == bv(c.fld("brk", "addr"), 32), W(a[2]) == c.b) if mem
                   else z3.And(W(a[0]) == c.cell, W(a[-1]) == c.b))
    for f, g in (("activate", "set_brk"), ("inactivate", "del_brk")):
        for mem, cell in ((True, False), (True, True), (False, True), (False, False)):
            u(f"brk.{f} {'mem' if mem else ''} {'cell' if cell else ''}", K + f + "()", lambda c, m=mem, l=cell: pre_cd(c) and brk2(c, m, l),
              lambda c, e, g=g, m=mem, l=cell: post_act(c, e, g, m, l),
              [callee(r"cl_\w*::%s\(" % g, g, None, 0), callee(r"cl_app::get_uc\(", "get_uc", lambda c, st, t: 0x5000, 64)])

    def brk2(c, mem, cell):
        c.st.ov[c.addr("brk", "mem")] = (8, c.mem if mem else 0)
        c.cell = c.obj("cell", "cl_memory_cell") if cell else 0
        c.st.ov[c.addr("brk", "cell")] = (8, c.cell)
        return c.args
    for mem, cell in ((True, False), (True, True), (False, True), (False, False)):
        u(f"brk.get_cell {'mem' if mem else ''} {'cell' if cell else ''}", K + "get_cell()", lambda c, m=mem, l=cell: brk(c, m, l),
          lambda c, e, m=mem, l=cell: e.ret_is(c.cell if l else 0x6000 if m else 0, 64) if not (m and not l) else
          (e.ret_is(0x6000, 64), e.calls(("get_cell", c.mem, bv(c.fld("brk", "addr"), 32)))), [callee(r"cl_\w*::get_cell\(unsigned int\)", "get_cell", lambda c, st, t, a: 0x6000, 64)])

    # ------------------------------------------------------------ a collection of them
    def coll(c, cls="cl_fetch_brk", rom=True):
        c.x = c.var("x", 32)
        F = M.fields("cl_ev_brk")
        c.ad, c.nr, c.ev = c.array("addr", 32), c.array("nr", 32), c.array("event", 32)
        c.rom = c.obj("rom", "cl_address_space") if rom else 0
        c.coll, c.n, c.ent, c.at = lst(c, "coll", {0: (8, M.img.sym[f"_ZTV{len(cls)}{cls}"] + 16), F["addr"][0]: (4, c.ad), F["nr"][0]: (4, c.nr), F["event"][0]: (4, c.ev)},
                                       c.sizeof("cl_ev_brk"), cls=Cn, rom=c.rom)
        c.ix = lambda st, p: idx32(z3.UDiv(W(p) - c.ent(I32(0)), W(c.ent(I32(1)) - c.ent(I32(0)))))
        c.a, c.flag, c.ok = c.var("a", 32), c.bvar("flagged"), c.bvar("valid")
        c.ip = c.obj("idx", nbytes=8)
        c.st.ov = {a: x for a, x in c.st.ov.items() if not c.ip <= a < c.ip + 8}
        c.st.ov[c.ip], c.st.ov[c.ip + 4] = (4, c.var("idx_before", 32)), (4, c.var("beyond", 32))
        return args(c, c.coll)
    VALID = callee(r"cl_\w*::valid_address\(", "valid_address", lambda c, st, t, a: (c.ex.side.append(("the address asked for", list(st.pc), bv(a, 32) == c.a, st)), c.ok)[1], 1)
    FLAG = callee(r"cl_\w*::get_cell_flag\(", "get_cell_flag",
                  lambda c, st, t, a, f: (c.ex.side.append(("the fetch breakpoint flag of the address", list(st.pc), z3.And(bv(a, 32) == c.a, bv(f, 32) == V["FB"]), st)), c.flag)[1], 1)
    end = lambda c, n: ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))

    def first(c, k, arr, v):
        return z3.And(z3.ULT(k, c.n), c.st.mem(arr, k) == v, z3.Implies(z3.ULT(c.x, k), c.st.mem(arr, c.x) != v))

    def none(c, arr, v):
        return z3.Implies(z3.ULT(c.x, c.n), c.st.mem(arr, c.x) != v)

    def nobefore(arr, v):
        return Loop(lambda c, st, n: [("none before is it", z3.Implies(z3.ULT(c.x, idx32(n)), c.st.mem(arr(c), c.x) != v(c))), end(c, n)], track=[lambda c, st, n: z3.Extract(31, 0, n)])

    def post_g(c, e):
        e.loose.update(range(c.ip, c.ip + 4))
        if e.case(W(e.ret) != 0):
            k = c.ix(e.st, e.ret)
            e.goal("the first breakpoint of that address", z3.And(c.ok, c.flag, W(e.ret) == c.ent(k), first(c, k, c.ad, c.a)))
            e.goal("and its place", bv(c.ex.ld(e.st, c.ip, 4), 32) == k)
        else:
            e.goal("there is none of that address", z3.Implies(z3.And(c.ok, c.flag), none(c, c.ad, c.a)))
    fn = O + "get_bp(unsigned int, int*)"
    u("coll.get_bp(addr)", fn, lambda c: coll(c) + [c.a, c.ip], post_g, [VALID, FLAG], {fn: nobefore(lambda c: c.ad, lambda c: c.a)})
    u("coll.get_bp(addr) no rom", fn, lambda c: coll(c, rom=False) + [c.a, c.ip], lambda c, e: e.ret_is(0, 64), [VALID, FLAG])
    u("coll.bp_at", O + "bp_at(unsigned int)", lambda c: coll(c) + [c.a], lambda c, e: e.goal("valid and flagged", boolv(e.ret) == z3.And(c.ok, c.flag)), [VALID, FLAG])
    u("coll.bp_at no rom", O + "bp_at(unsigned int)", lambda c: coll(c, rom=False) + [c.a], lambda c, e: e.goal("no", z3.Not(boolv(e.ret))), [VALID, FLAG])

    def post_gn(c, e):
        if e.case(W(e.ret) != 0):
            k = c.ix(e.st, e.ret)
            e.goal("the first breakpoint of that number", z3.And(W(e.ret) == c.ent(k), first(c, k, c.nr, c.a)))
        else:
            e.goal("there is none of that number", none(c, c.nr, c.a))
    fn = O + "get_bp(int)"
    u("coll.get_bp(nr)", fn, lambda c: coll(c) + [c.a], post_gn, [], {fn: nobefore(lambda c: c.nr, lambda c: c.a)})

    fn = O + "there_is_event(brk_event)"
    for cls in ("cl_ev_brk", "cl_fetch_brk"):
        def post_e(c, e, cls=cls):
            if cls != "cl_ev_brk":
                e.goal("fetch breakpoints are no events", z3.Not(boolv(e.ret)))
            elif not e.case(boolv(e.ret)):
                e.goal("no breakpoint of that event", none(c, c.ev, c.a))
            else:
                e.goal("a breakpoint of that event", z3.Exists([c.x], z3.And(z3.ULT(c.x, c.n), c.st.mem(c.ev, c.x) == c.a)))
        u("coll.there_is_event " + cls, fn, lambda c, cls=cls: coll(c, cls) + [c.a], post_e, [],
          {fn: nobefore(lambda c: c.ev, lambda c: c.a) if cls == "cl_ev_brk" else Loop(lambda c, st, n: [end(c, n)])})

    ADD = callee(r"cl_\w*list::add\(void\*\)", "add", None, 32)
    ACT, INACT = callee(r"cl_\w*::activate\(", "activate", None, 0), callee(r"cl_\w*::inactivate\(", "inactivate", None, 0)
    FREE = callee(r"cl_list::free_at\(", "free_at", None, 0)

    def pre_ab(c):
        coll(c)
        brk(c)
        return args(c, c.coll, c.b)
    u("coll.add_bp", O + "add_bp(cl_brk*)", pre_ab, lambda c, e: (e.goal("it is in the collection", [x[0] for x in e.log("add")] == ["add"] and z3.And(W(e.log("add")[0][1][0]) == c.coll, W(e.log("add")[0][1][1]) == c.b)),
                                                                 e.goal("and active", [x[0] for x in e.log("activate")] == ["activate"] and W(e.log("activate")[0][1][0]) == c.b)), [ADD, ACT])

    def removed(c, e, k):
        e.calls(("inactivate", c.ent(k)), ("free_at", c.coll, k))

    def pre_db(c):
        coll(c)
        c.k, c.found = c.var("place", 32), c.bvar("found")
        c.assume(z3.ULT(c.k, c.n))
        return args(c, c.coll, c.a)

    def get_bp(c, st, this, a, ip):
        c.ex.side.append(("the breakpoint of the address", list(st.pc), z3.And(W(this) == c.coll, bv(a, 32) == c.a), st))
        c.ex._put(st, norm(ip), 4, c.k)
        return z3.If(c.found, c.ent(c.k), z3.BitVecVal(0, 64))
    GBP = callee(r"cl_\w*::get_bp\(unsigned int, int\*\)|brk_coll::get_bp\(unsigned int, int\*\)", "get_bp", get_bp, 64)

    def post_db(c, e):
        w = [x for x in e.log() if x[0] != "get_bp"]
        if e.case(c.found):
            e.goal("it is made inactive, then taken out", [x[0] for x in w] == ["inactivate", "free_at"])
            if [x[0] for x in w] == ["inactivate", "free_at"]:
                e.goal("that one", z3.And(W(w[0][1][0]) == c.ent(c.k), W(w[1][1][0]) == c.coll, bv(w[1][1][1], 32) == c.k))
        else:
            e.goal("nothing is taken out", not w)
    u("coll.del_bp(addr)", O + "del_bp(unsigned int)", pre_db, post_db, [GBP, INACT, FREE])

    def pre_di(c):
        coll(c)
        c.assume(c.a >= 0)
        return args(c, c.coll, c.a, 0)
    u("coll.del_bp(idx)", O + "del_bp(int, int)", pre_di, lambda c, e: removed(c, e, c.a) if e.case(z3.ULT(c.a, c.n)) else e.calls(), [INACT, FREE])

    # ------------------------------------------------------------ when an instruction is fetched
    def pre_b(c):
        c.rom, c.fb, c.sim = c.obj("rom", "cl_address_space"), c.obj("fbrk", Cn), c.obj("sim", "cl_sim")
        uc(c, rom=c.rom, fbrk=c.fb, sim=c.sim)
        brk(c)
        c.a, c.flag, c.found, c.hit, c.k = bv(c.fld("uc", "PC"), 32), c.bvar("flagged"), c.bvar("found"), c.bvar("hits"), c.var("place", 32)
        return args(c, c.uc)

    def get_b(c, st, this, a, ip):
        c.ex.side.append(("the breakpoint at the program counter", list(st.pc), z3.And(W(this) == c.fb, bv(a, 32) == c.a), st))
        c.ex._put(st, norm(ip), 4, c.k)
        return z3.If(c.found, z3.BitVecVal(c.b, 64), z3.BitVecVal(0, 64))

    def post_b(c, e):
        go = z3.And(bv(c.fld("sim", "state"), 32) & V["GO"] != 0, W(c.fld("sim", "steps_done")) != 0)
        vcd = bv(c.fld("uc", "vcd_break"), 8) != 0
        asked = z3.And(go, c.flag, c.found)
        e.goal("a break exactly for a breakpoint that hits while running, never on the first instruction", boolv(e.ret) == z3.Or(z3.And(go, vcd), z3.And(asked, c.hit)))
        e.set("uc", "vcd_break", z3.If(go, z3.BitVecVal(0, 8), bv(c.fld("uc", "vcd_break"), 8)))
        hits = e.log("do_hit")
        e.goal("the breakpoint is counted once", len(hits) == (1 if e.case(asked) else 0))
        if hits:
            e.goal("that one", W(hits[0][1][0]) == c.b)
        d = e.log("del_bp")
        if e.case(z3.And(asked, c.hit, bv(c.fld("brk", "perm"), 32) == V["DYN"])):
            e.goal("a temporary one is deleted when it hits", z3.And(W(d[0][1][0]) == c.fb, bv(d[0][1][1], 32) == c.a) if len(d) == 1 else False)
        else:
            e.goal("no other is deleted", not d)
    u("uc.do_brk", UC + "::do_brk()", pre_b, post_b,
      [callee(r"brk_coll::get_bp\(unsigned int, int\*\)", "get_bp", get_b, 64), FLAG, callee(r"cl_\w*::do_hit\(", "do_hit", lambda c, st, t: c.hit, 1),
       callee(r"brk_coll::del_bp\(unsigned int\)", "del_bp", None, 0)])
    u("uc.do_brk no rom", UC + "::do_brk()", lambda c: (pre_b(c), c.st.ov.__setitem__(c.addr("uc", "rom"), (8, 0)), c.args)[2],
      lambda c, e: (e.goal("no break", z3.Not(boolv(e.ret))), e.calls()), [])

    # ------------------------------------------------------------ events
    def pre_o(c):
        c.ev = c.obj("events", L)
        uc(c, events=c.ev)
        brk(c, cls="cl_ev_brk")
        c.cell, c.hit, c.v = c.obj("ocell", "cl_memory_cell"), c.bvar("hits"), c.var("v", 32)
        c.cellv = c.var("cell_value", 32)
    HIT = callee(r"cl_\w*::do_hit\(", "do_hit", lambda c, st, t: c.hit, 1)
    EADD = callee(r"cl_list::add\(void\*\)", "add", None, 32)
    CGET = callee(r"cl_\w*::get\(\)", "get", lambda c, st, t: (c.ex.side.append(("the watched cell", list(st.pc), W(t) == c.cell, st)), c.cellv)[1], 32)

    def post_o(c, e, v):
        e.ret_is(v)
        h, a = e.log("do_hit"), e.log("add")
        e.goal("the breakpoint is counted once", W(h[0][1][0]) == c.b if len(h) == 1 else False)
        if e.case(c.hit):
            e.goal("the event is noted", z3.And(W(a[0][1][0]) == c.ev, W(a[0][1][1]) == c.b) if len(a) == 1 else False)
        else:
            e.goal("no event", not a)
    for op, cls, v in (("write", "cl_write_operator", lambda c: c.v), ("read", "cl_read_operator", lambda c: c.cellv)):
        u(f"{op} event", f"{cls}::{op}({'unsigned int' if op == 'write' else ''})",
          lambda c, op=op, cls=cls: (pre_o(c), args(c, c.obj("op", cls, uc=c.uc, bp=c.b, cell=c.cell), *([c.v] if op == "write" else [])))[1], lambda c, e, v=v: post_o(c, e, v(c)), [HIT, EADD, CGET])

    def pre_sb(c, cls, event=None):
        uc(c)
        brk(c, cls=cls)
        c.cell = c.obj("cell", "cl_cell8")
        c.e = c.var("event_of", 32)
        c.new = None
        return args(c, c.cell, c.uc, c.b)
    W_, R_ = [V["e" + x] for x in ("W", "WX", "WI", "WS")], [V["e" + x] for x in ("R", "RX", "RC", "RI", "RS")]
    isin = lambda x, s: z3.Or(*[x == v for v in s])
    GEV = callee(r"cl_\w*::get_event\(", "get_event", lambda c, st, t: c.e, 32)

    def new(c, st, n):
        a = 0x70001000
        return a

    def post_sb(c, e, dele=False):
        s, ap, pp, dl, mk = (e.log(x) for x in ("set_flag", "append", "prepend", "del_operator", "make"))
        if e.case(c.e == V["eNONE"]):
            e.goal("the cell is flagged", z3.And(W(s[0][1][0]) == c.cell, bv(s[0][1][1], 32) == V["FB"], boolv(s[0][1][2]) == (not dele)) if len(s) == 1 else False)
            e.goal("nothing else", not ap and not pp and not dl)
            return
        e.goal("no flag", not s)
        if dele:
            if e.case(z3.Or(isin(c.e, W_), isin(c.e, R_))):
                e.goal("its operator is removed", z3.And(W(dl[0][1][0]) == c.cell, W(dl[0][1][1]) == c.b) if len(dl) == 1 else False)
            else:
                e.goal("nothing is removed", not dl)
            return
        wr, rd = e.case(isin(c.e, W_)), False
        if not wr:
            rd = e.case(isin(c.e, R_))
        for lg, want, nm, cls in ((ap, wr, "a write", "write"), (pp, rd, "a read", "read")):
            if want:
                ok = len(lg) == 1 and len(mk) == 1
                e.goal(f"{nm} operator is put on the cell", z3.And(W(lg[0][1][0]) == c.cell, W(lg[0][1][1]) == W(mk[0][1][1]), W(mk[0][1][2]) == c.cell, W(mk[0][1][3]) == c.uc, W(mk[0][1][4]) == c.b)
                       if ok and mk[0][1][0] == cls else False)
            else:
                e.goal(f"no {nm} operator", not lg)

    def make(cls):
        def f(c, st, *a):
            st.ghost["log"] = st.ghost.get("log", []) + [("make", (cls, *a), None)]
            return 0
        return callee(r"cl_%s_operator::cl_%s_operator\(" % (cls, cls), cls, f, 0)
    cs = [GEV, callee(r"cl_\w*::set_flag\(", "set_flag", None, 0), callee(r"cl_\w*::append_operator\(", "append", None, 0), callee(r"cl_\w*::prepend_operator\(", "prepend", None, 0),
          callee(r"cl_\w*::del_operator\(", "del_operator", None, 0), callee(r"^operator new\(", "new", new, 64), make("write"), make("read")]
    u("cell.set_brk", "cl_memory_cell::set_brk(cl_uc*, cl_brk*)", lambda c: pre_sb(c, "cl_ev_brk"), post_sb, cs)
    u("cell.del_brk", "cl_memory_cell::del_brk(cl_brk*)", lambda c: (pre_sb(c, "cl_ev_brk"), args(c, c.cell, c.b))[1], lambda c, e: post_sb(c, e, True), cs)
    u("fetch breakpoint's event", "cl_fetch_brk::get_event()", lambda c: brk(c), lambda c, e: e.ret_is(V["eNONE"]))
    u("event breakpoint's event", "cl_ev_brk::get_event()", lambda c: brk(c, cls="cl_ev_brk"), lambda c, e: e.ret_is(bv(c.fld("brk", "event"), 32)))

    # the breakpoint of event k is the record E[k] of the breakpoints; in_events says which are among the events
    def pre_ce(c):
        c.x = c.var("x", 32)
        F = M.fields("cl_brk")
        c.perm, c.E, c.inev = c.array("perm", 32), c.array("event_brk", 32), c.array("in_events", 8)
        c.eb, c.nb, c.ent, _ = lst(c, "ebrk", {0: (8, M.img.sym["_ZTV9cl_ev_brk"] + 16), F["perm"][0]: (4, c.perm)}, c.sizeof("cl_ev_brk"), cls=Cn)
        c.n = c.var("n_events", 32)
        c.assume(z3.And(z3.ULT(c.n, MAX), z3.Implies(c.n != 0, c.nb != 0)))
        c.keep_small(z3.ULT(c.n, 4))
        sel = lambda st, k: z3.If(z3.ULT(st.mem(c.E, bv(k, 32)), c.nb), st.mem(c.E, bv(k, 32)), I32(0))
        c.at = lambda st, k: c.ent(sel(st, k))
        items = c.region("events.items", 8, z3.ZeroExt(32, c.n), {0: (8, lambda s, i: c.at(s, bv(i, 32) if not isinstance(i, z3.ExprRef) or i.size() == 32 else idx32(i)))})
        c.evs = c.obj("events", L, count=c.n, Items=items)
        c.sim = c.obj("sim", "cl_sim")
        c.st.ghost.update(acts=I32(0), dels=I32(0), low=c.nb)
        return args(c, uc(c, events=c.evs, ebrk=c.eb, sim=c.sim))

    def breaking(c, st, t):
        c.ex.side.append(("the next event's breakpoint acts", list(st.pc), W(t) == c.at(st, st.ghost["acts"]), st))
        st.ghost["acts"] = z3.simplify(st.ghost["acts"] + 1)
        return 0

    def index_of(c, st, t, b, *r):
        k = idx32(z3.UDiv(W(b) - c.ent(I32(0)), W(c.ent(I32(1)) - c.ent(I32(0)))))
        c.ex.side.append(("a breakpoint is looked for among the events", list(st.pc), z3.And(W(t) == c.evs, W(b) == c.ent(k), z3.ULT(k, st.ghost["low"])), st))
        return st.mem(c.inev, k) != 0

    def del_i(c, st, t, i, *r):
        c.ex.side.append(("a breakpoint is removed that is still in its place", list(st.pc), z3.And(W(t) == c.eb, z3.ULT(bv(i, 32), st.ghost["low"])), st))
        st.ghost["low"] = bv(i, 32)
        st.ghost["dels"] = z3.simplify(st.ghost["dels"] + z3.If(bv(i, 32) == c.x, I32(1), I32(0)))
        return 0

    def gone(c, st, frm):
        return st.ghost["dels"] == z3.If(z3.And(z3.ULT(c.x, c.nb), z3.UGE(c.x, frm), st.mem(c.perm, c.x) == V["DYN"], st.mem(c.inev, c.x) != 0), I32(1), I32(0))

    def post_ce(c, e):
        s = e.log("stop")
        if e.case(c.n != 0):
            e.goal("the simulation is stopped once, by an event", z3.And(W(s[0][1][0]) == c.sim, bv(s[0][1][1], 32) == V["resEV"]) if len(s) == 1 else False)
        else:
            e.goal("the simulation goes on", not s)
        e.goal("every event's breakpoint acts once", e.st.ghost["acts"] == c.n)
        e.goal("exactly the temporary ones among them are removed", gone(c, e.st, I32(0)))
    fn = UC + "::check_events()"
    u("uc.check_events", fn, pre_ce, post_ce, [callee(r"cl_\w*::stop\(int\)", "stop", None, 0), callee(r"cl_\w*::breaking\(", "breaking", breaking, 0),
                                               callee(r"cl_\w*list::index_of\(void const\*, int\*\)", "index_of", index_of, 1), callee(r"brk_coll::del_bp\(int, int\)", "del_bp", del_i, 0)],
      {fn: {0: Loop(lambda c, st, n: [("each before acted once", st.ghost["acts"] == idx32(n)), ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))], lambda c, st, n: st.ghost.update(acts=fresh("acts", 32))),
            1: Loop(lambda c, st, n: [("those behind are done", gone(c, st, c.nb - idx32(n))), ("those before are in place", z3.UGE(st.ghost["low"], c.nb - idx32(n))), ("the begin is not passed", z3.ULE(n, z3.ZeroExt(32, c.nb)))],
                    lambda c, st, n: st.ghost.update(dels=fresh("dels", 32), low=fresh("low", 32)))}})

    # ------------------------------------------------------------ by number
    def pre_n(c):
        c.fb, c.eb = c.obj("fbrk", Cn), c.obj("ebrk", Cn)
        uc(c, fbrk=c.fb, ebrk=c.eb)
        c.nr = c.var("nr", 32)
        c.inf, c.ine = c.bvar("in_fbrk"), c.bvar("in_ebrk")
        c.b1, c.b2 = c.obj("brk1", "cl_fetch_brk"), c.obj("brk2", "cl_ev_brk")
        c.k = c.var("place", 32)
        return args(c, c.uc, c.nr)

    def bynr(c, st, this, nr):
        c.ex.side.append(("the number asked for", list(st.pc), bv(nr, 32) == c.nr, st))
        return z3.If(W(this) == c.fb, z3.If(c.inf, z3.BitVecVal(c.b1, 64), z3.BitVecVal(0, 64)), z3.If(c.ine, z3.BitVecVal(c.b2, 64), z3.BitVecVal(0, 64)))
    NR = callee(r"brk_coll::get_bp\(int\)", "get_bp", bynr, 64)
    u("uc.brk_by_nr", UC + "::brk_by_nr(int)", pre_n, lambda c, e: e.ret_is(z3.If(c.inf, z3.BitVecVal(c.b1, 64), z3.If(c.ine, z3.BitVecVal(c.b2, 64), z3.BitVecVal(0, 64))), 64), [NR])
    for l in ("fb", "eb"):
        u("uc.brk_by_nr in " + l, UC + "::brk_by_nr(brk_coll*, int)", lambda c, l=l: (pre_n(c), args(c, c.uc, getattr(c, l), c.nr))[1],
          lambda c, e, l=l: e.ret_is(z3.If(c.inf, z3.BitVecVal(c.b1, 64), z3.BitVecVal(0, 64)) if l == "fb" else z3.If(c.ine, z3.BitVecVal(c.b2, 64), z3.BitVecVal(0, 64)), 64), [NR])

    def post_rm(c, e):
        d = [x for x in e.log() if x[0] in ("del addr", "del idx")]
        e.goal("told whether there is such a breakpoint", boolv(e.ret) == z3.Or(c.inf, c.ine))
        if e.case(c.inf):
            e.goal("the fetch breakpoint goes", z3.And(W(d[0][1][0]) == c.fb, bv(d[0][1][1], 32) == bv(c.fld("brk1", "addr"), 32)) if [x[0] for x in d] == ["del addr"] else False)
        elif e.case(c.ine):
            e.goal("the event breakpoint goes", z3.And(W(d[0][1][0]) == c.eb, bv(d[0][1][1], 32) == c.k) if [x[0] for x in d] == ["del idx"] else False)
        else:
            e.goal("none goes", not d)
    DA, DI = callee(r"brk_coll::del_bp\(unsigned int\)", "del addr", None, 0), callee(r"brk_coll::del_bp\(int, int\)", "del idx", None, 0)
    u("uc.rm_brk", UC + "::rm_brk(int)", pre_n, post_rm,
      [NR, DA, DI, callee(r"cl_\w*::index_of\(void const\*\)", "index_of",
                          lambda c, st, t, b: (c.ex.side.append(("the place of the breakpoint", list(st.pc), z3.And(W(t) == c.eb, W(b) == c.b2), st)), c.k)[1], 32)])

    def pre_ra(c):
        for nm in ("fbrk", "ebrk"):
            coll_ = {}
            F = M.fields("cl_ev_brk")
            ad = c.array("addr_" + nm, 32)
            a, n, ent, at = lst(c, nm, {0: (8, M.img.sym["_ZTV9cl_ev_brk"] + 16), F["addr"][0]: (4, ad)}, c.sizeof("cl_ev_brk"), cls=Cn)
            setattr(c, nm, (a, n, ent, ad))
        c.st.ghost["gone"] = I32(0)
        return args(c, uc(c, fbrk=c.fbrk[0], ebrk=c.ebrk[0]))
    cnt = lambda c, st, nm: bv(c.ex.ld(st, c.addr(nm, "count"), 4), 32)

    def dela(c, st, t, a):
        # one breakpoint of that address is taken out of the collection; the places of the others do not matter here
        c.ex.side.append(("an address of the collection", list(st.pc), z3.And(W(t) == c.fbrk[0], cnt(c, st, "fbrk") != 0, bv(a, 32) == c.st.mem(c.fbrk[3], I32(0))), st))
        c.ex._put(st, c.addr("fbrk", "count"), 4, norm(cnt(c, st, "fbrk") - 1))
        return 0

    def deli(c, st, t, i, _):
        c.ex.side.append(("a place of the collection", list(st.pc), z3.And(W(t) == c.ebrk[0], z3.ULT(bv(i, 32), cnt(c, st, "ebrk"))), st))
        c.ex._put(st, c.addr("ebrk", "count"), 4, norm(cnt(c, st, "ebrk") - 1))
        return 0
    fn = UC + "::remove_all_breaks()"
    u("uc.remove_all_breaks", fn, pre_ra, lambda c, e: (e.set("fbrk", "count", 0), e.set("ebrk", "count", 0)),
      [callee(r"brk_coll::del_bp\(unsigned int\)", "del addr", dela, 0), callee(r"brk_coll::del_bp\(int, int\)", "del idx", deli, 0)],
      {fn: {0: Loop(lambda c, st, n: [("one less each round", cnt(c, st, "fbrk") == c.fbrk[1] - idx32(n)), ("as many as there were", z3.ULE(n, z3.ZeroExt(32, c.fbrk[1])))],
                    lambda c, st, n: c.havoc(st, "fbrk", "count")),
            1: Loop(lambda c, st, n: [("one less each round", cnt(c, st, "ebrk") == c.ebrk[1] - idx32(n)), ("as many as there were", z3.ULE(n, z3.ZeroExt(32, c.ebrk[1])))],
                    lambda c, st, n: c.havoc(st, "ebrk", "count"))}})

    def post_mk(c, e):
        k = bv(c.fld("uc", "brk_counter"), 32)
        empty = z3.And(bv(c.fld("fbrk", "count"), 32) == 0, bv(c.fld("ebrk", "count"), 32) == 0)
        r = z3.If(z3.Or(k == 0, empty), I32(1), k + 1)
        e.ret_is(r)
        e.set("uc", "brk_counter", r)
    u("uc.make_new_brknr", UC + "::make_new_brknr()", pre_n, post_mk)
    k, r, a = z3.BitVecs("counter new nr", 32)
    U.append(Lemma("a new number is not in use", [("numbers in use are not above the counter, which stays so",
             z3.Implies(z3.And(a >= 1, a <= k, k < 0x7fffffff, r == k + 1), z3.And(r != a, a <= r)))]))
    u("uc.fbrk_at", UC + "::fbrk_at(unsigned int)", lambda c: (pre_n(c), args(c, c.uc, c.nr))[1], lambda c, e: e.ret_is(z3.If(c.inf, z3.BitVecVal(c.b1, 64), z3.BitVecVal(0, 64)), 64),
      [callee(r"brk_coll::get_bp\(unsigned int, int\*\)", "get_bp", lambda c, st, t, a, ip: (c.ex.side.append(("asked for the address", list(st.pc), z3.And(W(t) == c.fb, bv(a, 32) == c.nr), st)),
                                                                                            z3.If(c.inf, z3.BitVecVal(c.b1, 64), z3.BitVecVal(0, 64)))[1], 64)])
    order(M, u, Cn, "cl_brk", "nr")
    return U


def units(M):
    return units4(M) + units5(M) + units9(M)
