"""C06: loading Intel hex and S-record files."""
import re
import z3

from ..fn import Unit, Loop, callee
from ..sym import bv, boolv, fresh, norm
from .memory import args, idx32
from .uc import Mach, FIELDS, W, I32, UC

FIELDS6 = FIELDS + [("cl_memory", "width"), ("cl_inspec", "offset"), ("cl_f", "buffer"), ("cl_f", "first_free"), ("cl_f", "last_used"), ("cl_f", "prev_last_used"), ("cl_f", "at_end"), ("cl_f", "file_id")]
WIDTH = {1: (1, 8), 2: (9, 16), 3: (17, 24), 4: (25, 32)}


class Mach6(Mach):
    parents = {**Mach.parents, "cl_io": "cl_f"}


def machine():
    return Mach6(fields=FIELDS6, classes=[UC, "cl_list", "cl_sim", "cl_app", "cl_commander", "cl_inspec", "cl_f", "cl_io", "cl_address_space", "cl_memory_chip", "cl_banker", "cl_address_decoder", "chars"],
                tag="loader", includes=["fuiocl.h"], probes={"app": "application"})


B8 = lambda x: z3.Extract(7, 0, x) if x.size() > 8 else x


def units6(M):
    U = []

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))

    # ------------------------------------------------------------ one value of a file goes where it belongs
    def pre_r(c, chip, nomem=False):
        c.uc = c.obj("uc", UC)
        c.app = c.obj("app", "cl_app")
        c.st.ov[M.img.addr["app"]] = (8, c.app)
        c.is_ = c.obj("is", "cl_inspec")
        c.mem = c.obj("mem", "cl_memory_chip" if chip else "cl_address_space")
        c.dec = c.obj("dec", "cl_banker")
        for n in ("a", "val", "mi", "ma", "la", "ha", "size", "was"):
            setattr(c, n, c.var(n, 32))
        c.check, c.found, c.bank, c.has = c.bvar("check"), c.bvar("decoded"), c.bvar("banked"), c.bvar("bank_is_there")
        c.assume(z3.And(c.size != 0, z3.ULE(c.la, c.ha)))
        c.chip, c.nomem = chip, nomem
        return args(c, c.uc, c.is_, c.a, c.val, c.check)

    def on_mem(c, st, t, v):
        c.ex.side.append(("the memory asked for", list(st.pc), W(t) == c.mem, st))
        return v
    O = lambda nm, rx, f: callee(r"cl_\w*::%s\(" % rx, nm, lambda c, st, t, *a: on_mem(c, st, t, f(c)), 32)
    rom_cs = [callee(r"cl_inspec::get_mem\(", "get_mem", lambda c, st, t: 0 if c.nomem else c.mem, 64), callee(r"cl_inspec::get_min\(", "get_min", lambda c, st, t: c.mi, 32),
              callee(r"cl_inspec::get_max\(", "get_max", lambda c, st, t: c.ma, 32), callee(r"cl_inspec::get_offset\(", "get_offset", lambda c, st, t: c.ex.ld(st, c.addr("is", "offset"), 8), 64),
              O("get_size", "get_size", lambda c: c.size), O("lowest", "lowest_valid_address", lambda c: c.la), O("highest", "highest_valid_address", lambda c: c.ha),
              O("read", "read", lambda c: c.was), O("set", "set", lambda c: 0), O("download", "download", lambda c: 0),
              callee(r"cl_\w*::is_chip\(", "is_chip", lambda c, st, t: on_mem(c, st, t, c.chip), 1),
              callee(r"cl_\w*::is_address_space\(", "is_address_space", lambda c, st, t: on_mem(c, st, t, not c.chip), 1),
              callee(r"cl_address_space::get_decoder_of\(", "decoder", lambda c, st, t, a: on_mem(c, st, t, z3.If(c.found, z3.BitVecVal(c.dec, 64), z3.BitVecVal(0, 64))), 64),
              callee(r"cl_\w*::is_banker\(", "is_banker", lambda c, st, t: c.bank, 1), callee(r"cl_\w*::switch_to\(", "switch_to", lambda c, st, t, *a: c.has, 1),
              callee(r"cl_\w*::activate\(", "activate", lambda c, st, t, *a: 1, 1), callee(r"cl_app::dd_printf\(", "dd_printf", lambda c, st, *a: 0, 32)]

    def did(e):
        return [x for x in e.log() if x[0] in ("read", "set", "download", "switch_to", "activate")]

    def post_r(c, e):
        def does(*want):
            got = did(e)
            e.goal("does " + (", ".join(w[0] for w in want) or "nothing") + f" (did {', '.join(g[0] for g in got) or 'nothing'})", [g[0] for g in got] == [w[0] for w in want])
            if [g[0] for g in got] == [w[0] for w in want]:
                for g, w in zip(got, want):
                    e.goal(g[0] + " as told", z3.And(W(g[1][0]) == w[1], *[bv(y, 32) == x for x, y in zip(w[2:], g[1][1:])]))

        def move(a, pre=(), post=()):
            if e.case(c.check):
                does(*pre, ("read", c.mem, a), *post)
                e.goal("told whether they are equal", boolv(e.ret) == (c.was == c.val))
            else:
                does(*pre, ("set" if c.chip else "download", c.mem, a, c.val), *post)
                e.goal("told yes", boolv(e.ret))
        if c.nomem:
            does()
            e.goal("told no", z3.Not(boolv(e.ret)))
            return
        if not e.case(z3.And(z3.UGE(c.a, c.mi), z3.ULE(c.a, c.ma))):
            does()
            e.goal("told yes", boolv(e.ret))
            return
        a = z3.simplify(c.a + z3.Extract(31, 0, W(c.fld("is", "offset"))))
        if c.chip:
            return move(a)
        if e.case(z3.And(z3.UGE(a, c.la), z3.ULE(a, c.ha))):
            return move(a)
        ask = e.log("decoder")
        e.goal("the decoder of the place in the bank", bv(ask[0][1][1], 32) == z3.URem(a, c.size) if len(ask) == 1 else False)
        if e.case(z3.And(c.found, c.bank)):
            if e.case(c.has):
                move(z3.URem(a, c.size), [("switch_to", c.dec, z3.UDiv(a, c.size))], [("activate", c.dec)])
            else:
                does(("switch_to", c.dec, z3.UDiv(a, c.size)))
        else:
            does()
    fn = UC + "::set_rom(cl_inspec*, unsigned int, unsigned int, bool)"
    u("set_rom chip", fn, lambda c: pre_r(c, True), post_r, rom_cs)
    u("set_rom space", fn, lambda c: pre_r(c, False), post_r, rom_cs)
    u("set_rom no memory", fn, lambda c: pre_r(c, False, True), post_r, rom_cs)

    # ------------------------------------------------------------ Intel hex
    # the file is `file`, N characters; q is the place behind the colon of the record at hand
    def pre_h(c, bpw):
        c.bpw = bpw
        c.uc, c.is_, c.f = c.obj("uc", UC), c.obj("is", "cl_inspec"), c.obj("f", "cl_f")
        w = c.var("width", 32)
        lo, hi = WIDTH[bpw]
        c.assume(z3.And(z3.UGE(w, lo), z3.ULE(w, hi)))
        c.mem = c.obj("mem", "cl_address_space", width=w)
        c.file, c.N = c.array("file", 8), c.var("N", 32)
        c.assume(z3.ULT(c.N, 1 << 30))
        c.rec = c.stack_array("rec")
        c.x = c.var("x", 32)
        c.check = c.bvar("check")
        # CK(q, k): the checksum of the record at q over k data bytes
        c.CK = z3.Function("CK", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(8))
        c.F = lambda k: c.st.mem(c.file, z3.simplify(bv(k, 32)))
        # the value of the two characters at k (two digits: their value)
        BY = z3.Function("BY", z3.BitVecSort(32), z3.BitVecSort(64))
        c.by = lambda k: BY(z3.simplify(bv(k, 32)))
        c.b8 = lambda k: z3.Extract(7, 0, c.by(k))
        c.D = lambda q: c.b8(q)
        c.A = lambda q: z3.Extract(31, 0, c.by(q + 2) * 256 + c.by(q + 4))
        c.T = lambda q: c.b8(q + 6)
        c.data = lambda q, i: c.b8(q + 8 + 2 * i)
        c.D32 = lambda q: z3.ZeroExt(24, c.D(q))
        c.head = lambda q: c.D(q) + z3.Extract(7, 0, c.A(q)) + z3.Extract(15, 8, c.A(q)) + c.T(q)
        c.good = lambda q: c.CK(q, c.D32(q)) + c.b8(q + 8 + 2 * c.D32(q)) == 0
        c.words = lambda q: z3.UDiv(c.D32(q), I32(bpw))
        c.newbase = lambda q, b: z3.If(z3.And(c.good(q), c.T(q) == 4, z3.UGE(c.D(q), 2)), (z3.ZeroExt(24, c.data(q, 0)) * 256 + z3.ZeroExt(24, c.data(q, 1))) << 16, b)
        c.st.ghost.update(pos=I32(0), q=I32(0), inrec=I32(0), bad=I32(0), w=I32(0), base0=I32(0), start=I32(0), total=z3.BitVecVal(0, 64), lb=I32(0), lt=z3.BitVecVal(0, 8))
        return args(c, c.uc, c.is_, c.f, c.check)

    def g(st, n, v=None):
        if v is not None:
            st.ghost[n] = z3.simplify(v)
        return st.ghost[n]

    def get_c(c, st, t):
        pos = g(st, "pos")
        more = z3.ULT(pos, c.N)
        ch = z3.ZeroExt(24, c.F(pos))
        none = fresh("nothing", 32)
        c.ex.add_pc(st, none <= 0)
        if not c.holds(st, g(st, "inrec") == 1):
            colon = z3.And(more, ch == ord(":"))
            g(st, "q", pos + 1)
            g(st, "inrec", z3.If(colon, I32(1), I32(0)))
            c.ex.add_pc(st, z3.Implies(z3.And(c.good(g(st, "q")), c.T(g(st, "q")) == 0), whole(c, g(st, "q"))))
        else:
            g(st, "bad", z3.If(z3.And(more, ch != 0), g(st, "bad"), I32(1)))
        g(st, "pos", z3.If(more, pos + 1, pos))
        return z3.If(more, ch, none)

    def eof(c, st, t):
        e = z3.Bool(f"eof!{fresh('e', 8)}")
        c.ex.add_pc(st, z3.Implies(e, z3.UGE(g(st, "pos"), c.N)))
        g(st, "bad", z3.If(z3.And(e, g(st, "inrec") == 1), I32(1), g(st, "bad")))
        return e

    def strtol(c, st, s, end, base):
        c.ex.side.append(("a number of two hexadecimal digits is read", list(st.pc), z3.And(bv(base, 32) == 16, bv(c.ex.ld(st, norm(bv(s, 64) + 2), 1), 8) == 0), st))
        a, b = (bv(c.ex.ld(st, norm(bv(s, 64) + i), 1), 8) for i in (0, 1))
        at = g(st, "pos") - 2
        c.ex.side.append(("the number stands in the file", list(st.pc), z3.And(a == c.F(at), b == c.F(at + 1)), st))
        return c.by(at)

    def set_rom(c, st, t, i, a, v, chk):
        q, w, b = g(st, "q"), g(st, "w"), c.bpw
        at = (g(st, "base0") + c.A(q))
        at = (z3.UDiv(at, I32(b)) if b > 1 else at) + w
        val = z3.ZeroExt(24, c.data(q, w * b))
        for j in range(1, b):
            val = val | (z3.ZeroExt(24, c.data(q, w * b + j)) << (8 * j))
        s = lambda nm, f: c.ex.side.append((nm, list(st.pc), f, st))
        s("only data of a record with a good checksum is loaded", z3.And(g(st, "inrec") == 1, g(st, "bad") == 0, c.good(q), c.T(q) == 0, z3.ULT(w, c.words(q))))
        s("at its address", bv(a, 32) == at)
        s("with its value", bv(v, 32) == val)
        s("as asked for", z3.And(W(t) == c.uc, W(i) == c.is_, boolv(chk) == c.check))
        g(st, "w", w + 1)
        g(st, "total", g(st, "total") + 1)
        return fresh("eq", 1)
    HEX = [callee(r"cl_f::get_c\(", "get_c", get_c, 32), callee(r"cl_f::eof\(", "eof", eof, 1), callee(r"^(__isoc23_)?strtol", "strtol", strtol, 64),
           callee(r"cl_uc::set_rom\(", "set_rom", set_rom, 1), callee(r"cl_inspec::get_mem\(", "get_mem", lambda c, st, t: c.mem, 64), callee(r"^fprintf", "fprintf", lambda c, st, *a: 0, 32)]

    RI = "ReadInt(cl_f*, bool*, int)"

    def readint(c, st, f, okp, n):
        """Numbers of two digits each, the first is the highest; or nothing if there is no such number (any more)."""
        if not isinstance(norm(n), int):
            return fresh("number", 64)
        n, ok0, gd, pos = norm(n), bv(c.ex.ld(st, okp, 1), 8) != 0, z3.Bool(f"good!{fresh('g', 8)}"), g(st, "pos")
        ok1 = z3.And(ok0, gd)
        c.ex.add_pc(st, z3.Implies(ok1, z3.ULE(pos + 2 * n, c.N)))
        v = c.by(pos)
        for i in range(1, n):
            v = v * 256 + c.by(pos + 2 * i)
        g(st, "pos", z3.If(ok1, pos + 2 * n, z3.If(ok0, fresh("pos", 32), pos)))
        g(st, "bad", z3.If(z3.And(ok0, z3.Not(gd)), I32(1), g(st, "bad")))
        c.ex._put(st, okp, 1, norm(z3.If(ok1, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
        return z3.If(ok1, v, z3.BitVecVal(0, 64))

    has_ri = RI in M.ex.m.by_demangled
    if has_ri:
        HEX.append(callee(r"^" + re.escape(RI), "ReadInt", readint, 64))

    def pre_ri(c, n, ok):
        a = pre_h(c, 1)
        c.n, c.ok0 = n, ok
        c.oka = c.array("ok", 8)
        c.assume(c.st.mem(c.oka, 0) == int(ok))
        c.okp = c.region("ok", 1, 1, {0: (1, c.oka)})
        c.st.ghost.update(inrec=I32(1), pos=c.var("pos0", 32))
        c.p0 = c.st.ghost["pos"]
        c.assume(z3.ULE(c.p0, c.N))
        return args(c, c.f, c.okp, n)

    def post_ri(c, e):
        st = e.st
        good = bv(c.ex.ld(st, c.okp, 1), 8) == 1
        e.goal("told whether there was a number", z3.Or(good, bv(c.ex.ld(st, c.okp, 1), 8) == 0))
        v = c.by(c.p0)
        for i in range(1, c.n):
            v = v * 256 + c.by(c.p0 + 2 * i)
        e.goal("the number", W(e.ret) == z3.If(good, v, z3.BitVecVal(0, 64)))
        e.goal("its characters are read", z3.Implies(good, z3.And(g(st, "pos") == c.p0 + 2 * c.n, g(st, "bad") == 0, z3.ULE(g(st, "pos"), c.N))))
        e.goal("no number: the record is broken", z3.If(z3.BoolVal(c.ok0), z3.Implies(z3.Not(good), g(st, "bad") == 1), z3.And(z3.Not(good), g(st, "pos") == c.p0, g(st, "bad") == 0)))
        e.loose_arr("ok")
    if has_ri:
        for n in (1, 2):
            for ok in (True, False):
                u(f"ReadInt {n} {'' if ok else 'not '}ok", RI, lambda c, n=n, ok=ok: pre_ri(c, n, ok), post_ri, HEX[:3])

    def loaded(c, st):
        q = g(st, "q")
        return z3.If(z3.And(g(st, "inrec") == 1, g(st, "bad") == 0, c.good(q), c.T(q) == 0), c.words(q), I32(0))

    def unskipped(c, st):
        return z3.Implies(z3.And(z3.ULE(g(st, "start"), c.x), z3.ULT(c.x, g(st, "pos"))), c.F(c.x) != ord(":"))

    def whole(c, q):
        """Records hold whole words."""
        return z3.URem(c.D32(q), I32(c.bpw)) == 0 if c.bpw > 1 else z3.BoolVal(True)

    def defs(c, st, n):
        q, k = g(st, "q"), idx32(n)
        return [c.CK(q, I32(0)) == c.head(q), c.CK(q, k + 1) == c.CK(q, k) + c.data(q, k)]

    # every record
    def mod_o(c, st, n):
        st.ghost.update(pos=fresh("pos", 32), q=fresh("q0", 32), inrec=I32(0), bad=I32(0), w=I32(0), base0=fresh("base", 32), total=fresh("total", 64), lb=fresh("lb", 32), lt=fresh("lt", 8))
        st.ghost["start"] = st.ghost["pos"]
        fr = z3.Function(f"rec!{fresh('r', 1)}", z3.BitVecSort(32), z3.BitVecSort(8))
        st.arr.pop("rec", None)
        st.base["rec"] = fr

    def inv_o(c, st, n):
        return [("a record with a good checksum was loaded as a whole", g(st, "w") == loaded(c, st)), ("no colon was passed over", z3.Implies(g(st, "inrec") == 1, unskipped0(c, st)))]

    def unskipped0(c, st):
        return z3.Implies(z3.And(z3.ULE(g(st, "start"), c.x), z3.ULT(c.x, g(st, "q") - 1)), c.F(c.x) != ord(":"))

    def eq(v, n):
        """v == n for a loop variable, which may be a number, a vector or a truth value."""
        return z3.BoolVal(v == n) if isinstance(v, int) else (v if n else z3.Not(v)) if isinstance(v, z3.BoolRef) else v == n

    def zero(c, st, vals):
        return [((k, i), eq(v, k)) for i, v in enumerate(vals) for k in (0, 1)]

    def facts_o(c, st, vals):
        """Variables which tell whether the last record was well read, and its type."""
        bad, typ = (g(st, "lb"), g(st, "lt")) if z3.is_true(z3.simplify(g(st, "inrec") == 0)) else (g(st, "bad"), c.T(g(st, "q")))
        r = zero(c, st, vals)
        for i, v in enumerate(vals):
            r.append((("ok", i), z3.If(bad == 0, eq(v, 1), eq(v, 0))))
            v = z3.BitVecVal(v, 8) if isinstance(v, int) else v
            if isinstance(v, z3.BitVecRef):
                r.append((("type", i), z3.Implies(bad == 0, B8(v) == typ)))
            else:
                r.append((("type", i), z3.BoolVal(False)))
        return r
    tr = [lambda c, st, n: z3.If(g(st, "bad") == 0, c.newbase(g(st, "q"), g(st, "base0")), g(st, "base0")) if not z3.is_true(z3.simplify(g(st, "inrec") == 0)) else g(st, "base0"), lambda c, st, n: g(st, "total")]
    outer = Loop(inv_o, mod_o, track=tr, facts=facts_o)

    # up to the colon
    def mod_s(c, st, n):
        st.ghost.update(pos=fresh("pos", 32), q=fresh("q", 32), inrec=I32(0))
    scan = Loop(lambda c, st, n: [("no record has begun", g(st, "inrec") == 0), ("no colon was passed over", unskipped(c, st)), ("the file goes on", z3.ULE(g(st, "start"), g(st, "pos")))], mod_s, facts=zero)

    # the data of a record
    def mod_d(c, st, n):
        q, bad0 = g(st, "q"), g(st, "bad")
        st.ghost.update(pos=fresh("pos", 32), bad0=bad0, bad=z3.If(bad0 != 0, bad0, fresh("bad", 32)))
        fr = z3.Function(f"rec!{fresh('r', 1)}", z3.BitVecSort(32), z3.BitVecSort(8))
        st.arr.pop("rec", None)
        bad = g(st, "bad")
        st.base["rec"] = lambda x: z3.If(z3.And(z3.ULT(bv(x, 32), idx32(n)), bad == 0), c.data(q, bv(x, 32)), fr(bv(x, 32)))

    def inv_d(c, st, n):
        q = g(st, "q")
        return [("the data read so far", z3.Implies(z3.And(g(st, "bad") == 0, z3.ULT(c.x, idx32(n))), st.mem(c.rec, c.x) == c.data(q, c.x))), ("the place in the file", z3.Implies(g(st, "bad") == 0, g(st, "pos") == q + 8 + 2 * idx32(n))),
                ("the number of data bytes", z3.ULE(n, z3.ZeroExt(56, c.D(q)))), ("a record is read", g(st, "inrec") == 1), ("well read or not", z3.And(z3.ULE(g(st, "bad"), 1), z3.Implies(st.ghost.get("bad0", I32(0)) != 0, g(st, "bad") == 1)))]

    def facts_d(c, st, vals):
        q = g(st, "q")
        r = []
        for i, v in enumerate(vals):
            r += [(("ok", i), z3.If(g(st, "bad") == 0, eq(v, 1), eq(v, 0)))]
            v = z3.BitVecVal(v, 32) if isinstance(v, int) else v
            r += [(("sum", i), z3.Implies(g(st, "bad") == 0, z3.Extract(7, 0, v) == c.CK(q, z3.LShR(g(st, "pos") - q - 8, 1))) if isinstance(v, z3.BitVecRef) else z3.BoolVal(False))]
        return r
    data = Loop(inv_d, mod_d, defs=defs, facts=facts_d)

    FN = UC + "::read_hex_file(cl_inspec*, cl_f*, bool)"

    def post_h(c, e):
        st = e.st
        e.goal("what was read last was loaded, too", g(st, "w") == loaded(c, st))
        e.goal("reading ends at the end record, the end of the file or an error", z3.Or(z3.UGE(g(st, "pos"), c.N), g(st, "lb") != 0, g(st, "lt") == 1))
        e.goal("no colon was passed over", z3.If(g(st, "inrec") == 1, unskipped0(c, st), unskipped(c, st)))
        e.goal("the number of words loaded is told", W(e.ret) == g(st, "total"))
        e.loose_arr("rec")
    def writing(b):
        d9 = lambda n: z3.Extract(8, 0, n)      # rounds: 255 at most
        nw = lambda n: z3.ZeroExt(23, z3.UDiv(d9(n), z3.BitVecVal(b, 9)) if b > 1 else d9(n))
        left = lambda n: z3.ZeroExt(23, z3.URem(d9(n), z3.BitVecVal(b, 9))) if b > 1 else I32(0)

        def mod(c, st, n):
            t0 = st.ghost["total"] - z3.ZeroExt(32, st.ghost["w"])
            st.ghost.update(w=z3.simplify(nw(n)), total=z3.simplify(t0 + z3.ZeroExt(32, nw(n))))

        def at(c, st, n):
            a = g(st, "base0") + c.A(g(st, "q"))
            return (z3.UDiv(a, I32(b)) if b > 1 else a) + nw(n)

        def part(c, st, n):
            v, q = I32(0), g(st, "q")
            for j in range(b - 1):
                v = v | z3.If(z3.UGT(left(n), j), z3.ZeroExt(24, c.data(q, nw(n) * b + j)) << (8 * j), I32(0))
            return v
        return Loop(lambda c, st, n: [("one word for so many bytes", g(st, "w") == nw(n)), ("so many", z3.ULE(n, z3.ZeroExt(56, c.D(g(st, "q")))))], mod, facts=zero,
                    track=[lambda c, st, n: g(st, "total"), at, lambda c, st, n: left(n), part])
    for b in (1, 2, 3, 4):
        u(f"read_hex_file {b}", FN, lambda c, b=b: pre_h(c, b), post_h, HEX, {FN: {0: outer, 1: scan, 2: data, 3: writing(b)}})

    # ------------------------------------------------------------ S-records
    H2, S19 = "h2(char const*, int)", "s19(cl_inspec*, cl_uc*, unsigned int, char const*, int, int, bool)"
    has = lambda f: f in M.ex.m.by_demangled

    def newline(c, st):
        """Another line of the file: any text."""
        ln, raw = fresh("length", 32), z3.Function(f"raw!{fresh('line', 8)}", z3.BitVecSort(32), z3.BitVecSort(8))
        st.arr.pop("text", None)
        st.base["text"] = lambda x: z3.If(z3.ULT(bv(x, 32), ln), z3.If(raw(bv(x, 32)) == 0, z3.BitVecVal(1, 8), raw(bv(x, 32))), z3.BitVecVal(0, 8))
        BY = z3.Function(f"BY!{fresh('line', 8)}", z3.BitVecSort(32), z3.BitVecSort(8))
        SUM = z3.Function(f"SUM!{fresh('line', 8)}", z3.BitVecSort(32), z3.BitVecSort(8))
        c.ex.add_pc(st, z3.ULT(ln, 1 << 20))
        st.ghost.update(len=ln, done=I32(0), t0=st.base["text"](I32(0)), t1=st.base["text"](I32(1)))
        st.ghost["line"] = (BY, SUM)
        c.ex.add_pc(st, SUM(I32(0)) == 0)

    def byte(c, st, k):
        return st.ghost["line"][0](z3.simplify(bv(k, 32)))

    def pre_t(c, bpw):
        c.bpw = bpw
        c.uc, c.is_, c.f = c.obj("uc", UC), c.obj("is", "cl_inspec"), c.obj("f", "cl_f")
        w = c.var("width", 32)
        lo, hi = WIDTH[bpw]
        c.assume(z3.And(z3.UGE(w, lo), z3.ULE(w, hi)))
        c.mem = c.obj("mem", "cl_address_space", width=w)
        c.tx = c.array("text", 8)
        c.text = c.region("text", 1, 1 << 21, {0: (1, c.tx)})
        c.check = c.bvar("check")
        c.st.ghost.update(w=I32(0), total=z3.BitVecVal(0, 64))
        newline(c, c.st)

    def h2(c, st, s, p):
        c.ex.side.append(("digits of the line are read", list(st.pc), W(s) == c.text, st))
        return z3.ZeroExt(24, byte(c, st, p))
    GETMEM = callee(r"cl_inspec::get_mem\(", "get_mem", lambda c, st, t: c.mem, 64)
    H2C = [callee(r"^" + re.escape(H2), "h2", h2, 32)] if has(H2) else []

    def isxd(c, st, ch):
        r = lambda a, b: z3.And(bv(ch, 32) >= ord(a), bv(ch, 32) <= ord(b))
        return z3.If(z3.Or(r("0", "9"), r("a", "f"), r("A", "F")), I32(1), I32(0))

    def pre_h2(c):
        pre_t(c, 1)
        c.p = c.var("p", 32)
        c.assume(z3.ULT(c.p, c.st.ghost["len"]))
        return args(c, c.text, c.p)

    def post_h2(c, e):
        t = e.st.base["text"]
        a, b = t(c.p), t(c.p + 1)
        dg = lambda x: z3.Or(z3.And(z3.UGE(x, ord("0")), z3.ULE(x, ord("9"))), z3.And(z3.UGE(x, ord("a")), z3.ULE(x, ord("f"))), z3.And(z3.UGE(x, ord("A")), z3.ULE(x, ord("F"))))
        v = lambda x: z3.If(z3.UGE(x, ord("a")), x - (ord("a") - 10), z3.If(z3.UGE(x, ord("A")), x - (ord("A") - 10), x - ord("0")))
        e.goal("two digits", z3.Implies(z3.And(dg(a), dg(b)), bv(e.ret, 32) == z3.ZeroExt(24, v(a) * 16 + v(b))))
        e.goal("a byte", z3.ULE(bv(e.ret, 32), 255))
    if has(H2):
        u("h2", H2, pre_h2, post_h2, [callee(r"^isxdigit", "isxdigit", isxd, 32)])

    # one record
    def pre_s(c, bpw):
        pre_t(c, bpw)
        c.a, c.p, c.n = c.var("a", 32), c.var("p", 32), c.var("n", 32)
        c.assume(z3.And(z3.ULE(c.p, 64), c.n < 256, c.n > -256))
        c.assume(z3.Implies(c.n > 0, z3.URem(z3.Extract(8, 0, c.n), z3.BitVecVal(bpw, 9)) == 0))
        return args(c, c.is_, c.uc, c.a, c.text, c.p, c.n, c.check)

    def rom_s(c, st, t, i, a, v, chk):
        w, b = g(st, "w"), c.bpw
        val = z3.ZeroExt(24, byte(c, st, c.p + 2 * b * w))
        for j in range(1, b):
            val = val | (z3.ZeroExt(24, byte(c, st, c.p + 2 * b * w + 2 * j)) << (8 * j))
        s = lambda nm, f: c.ex.side.append((nm, list(st.pc), f, st))
        s("no more than the data of the record", z3.And(c.n > 0, z3.ULT(w * b, c.n)))
        s("at its address", bv(a, 32) == z3.UDiv(c.a, I32(b)) + w)
        s("with its value", bv(v, 32) == val)
        s("as asked for", z3.And(W(t) == c.uc, W(i) == c.is_, boolv(chk) == c.check))
        g(st, "w", w + 1)
        return fresh("eq", 1)

    def words_s(b):
        def mod(c, st, n):
            st.ghost.update(w=idx32(n))
        return Loop(lambda c, st, n: [("one word a round", g(st, "w") == idx32(n)), ("so many", z3.And(z3.ULE(n, 255), z3.ULE(idx32(n) * b, c.n)))], mod,
                    track=[lambda c, st, n: c.p + 2 * b * idx32(n), lambda c, st, n: b * idx32(n), lambda c, st, n: z3.UDiv(c.a, I32(b)) + idx32(n)])

    def post_s(c, e):
        e.goal("all data of the record is loaded", g(e.st, "w") * c.bpw == z3.If(c.n > 0, c.n, I32(0)))
        e.goal("the number of bytes is told", bv(e.ret, 32) == z3.If(c.n > 0, c.n, I32(0)))
    if has(S19):
        for b in (1, 2, 3, 4):
            u(f"s19 {b}", S19, lambda c, b=b: pre_s(c, b), post_s, H2C + [GETMEM, callee(r"cl_uc::set_rom\(", "set_rom", rom_s, 1)], {S19: {0: words_s(b)}})

    # the file
    def pre_f(c):
        pre_t(c, 1)
        c.line = None
        return args(c, c.uc, c.is_, c.f, c.check)

    def load(c, st):
        """What the line asks for -> (is there something to load, address, place of the data, number of bytes)."""
        cnt = z3.ZeroExt(24, byte(c, st, 2))
        SUM = st.ghost["line"][1]
        t1 = st.ghost["t1"]
        na = z3.If(t1 == ord("1"), I32(2), z3.If(t1 == ord("2"), I32(3), I32(4)))
        b = lambda k: z3.ZeroExt(24, byte(c, st, 4 + 2 * k))
        a2 = b(0) * 256 + b(1)
        a3 = a2 * 256 + b(2)
        a = z3.If(na == 2, a2, z3.If(na == 3, a3, a3 * 256 + b(3)))
        n = cnt - na - 1
        ok = z3.And(st.ghost["t0"] == ord("S"), z3.Or(t1 == ord("1"), t1 == ord("2"), t1 == ord("3")), z3.UGE(st.ghost["len"], 4), z3.UGE(st.ghost["len"], 4 + 2 * cnt),
                    ~SUM(cnt) == byte(c, st, 2 + 2 * cnt), n > 0)
        return ok, a, 4 + 2 * na, n

    def s19(c, st, i, u_, a, s, p, n, chk):
        ok, A, P, N = load(c, st)
        side = lambda nm, f: c.ex.side.append((nm, list(st.pc), f, st))
        n = bv(n, 32)
        side("only a valid data record is loaded", z3.Implies(n > 0, ok))
        side("its data at its address", z3.Implies(n > 0, z3.And(bv(a, 32) == A, bv(p, 32) == P, n == N, W(s) == c.text)))
        side("as asked for", z3.And(W(i) == c.is_, W(u_) == c.uc, boolv(chk) == c.check))
        g(st, "done", z3.If(n > 0, g(st, "done") + 1, g(st, "done")))
        r = z3.If(n > 0, n, I32(0))
        g(st, "total", g(st, "total") + z3.SignExt(32, r))
        return r

    def get_s(c, st, ret, t):
        c.ex.side.append(("the file is read", list(st.pc), W(t) == c.f, st))
        c.ex.side.append(("a valid data record is loaded once", list(st.pc), g(st, "done") == z3.If(load(c, st)[0], I32(1), I32(0)) if not z3.is_true(z3.simplify(g(st, "fresh_line") == 1)) else z3.BoolVal(True), st))
        newline(c, st)
        g(st, "fresh_line", I32(0))
        return 0
    CH = [callee(r"^chars::(chars|~chars)\(", "chars", lambda c, st, *a: 0, 0), callee(r"^chars::operator=\(", "assign", lambda c, st, t, o: t, 64),
          callee(r"^chars::empty\(", "empty", lambda c, st, t: g(st, "len") == 0, 1), callee(r"^chars::c(_)?str\(", "c_str", lambda c, st, t: c.text, 64),
          callee(r"^chars::len(gth)?\(", "length", lambda c, st, t: g(st, "len"), 32), callee(r"cl_f::get_s\(", "get_s", get_s, 0), callee(r"cl_f::eof\(", "eof", lambda c, st, t: z3.Bool(f"eof!{fresh('e', 8)}"), 1),
          callee(r"^" + re.escape(S19), "s19", s19, 32)]

    def mod_f(c, st, n):
        newline(c, st)
        st.ghost.update(fresh_line=I32(1), total=fresh("total", 64))
    lines = Loop(lambda c, st, n: [("a valid data record is loaded once", z3.Or(g(st, "fresh_line") == 1, g(st, "done") == z3.If(load(c, st)[0], I32(1), I32(0))))], mod_f,
                 track=[lambda c, st, n: g(st, "total")])

    def defs_sum(c, st, n):
        SUM, k = st.ghost["line"][1], idx32(n)
        return [SUM(I32(0)) == 0, SUM(k + 1) == SUM(k) + byte(c, st, 2 + 2 * k)]

    def facts_sum(c, st, vals):
        SUM, r = st.ghost["line"][1], []
        vals = [z3.BitVecVal(v, 32) if isinstance(v, int) else v for v in vals]
        for i, v in enumerate(vals):
            for j, w in enumerate(vals):
                r.append((("sum", i, j), B8(v) == SUM(w)))
        return r
    summing = Loop(lambda c, st, n: [("bytes so far", z3.ULE(n, z3.ZeroExt(56, byte(c, st, 2))))], None, defs=defs_sum, facts=facts_sum)

    def pre_f0(c):
        a = pre_f(c)
        c.st.ghost["fresh_line"] = I32(1)
        return a

    def post_f(c, e):
        e.goal("the number of bytes loaded is told", W(e.ret) == g(e.st, "total"))
        e.loose_arr("text")
    FS = UC + "::read_s19_file(cl_inspec*, cl_f*, bool)"
    u("read_s19_file", FS, pre_f0, post_f, H2C + CH, {FS: {0: lines, 1: summing}})

    # one line of a file
    def pre_l(c):
        c.f, c.N, c.file = c.obj("f", "cl_f"), c.var("N", 32), c.array("file", 8)
        c.assume(z3.ULT(c.N, 1 << 30))
        c.x = c.var("x", 32)
        c.F = lambda k: c.st.mem(c.file, z3.simplify(bv(k, 32)))
        c.ret = c.region("line", 32, 1, {})
        c.st.ghost.update(pos=c.var("pos0", 32), hit=I32(0), cnt=I32(0), start=I32(0), app=I32(0))
        c.p0 = c.st.ghost["pos"]
        c.assume(z3.ULE(c.p0, c.N))
        return args(c, c.ret, c.f)
    nl = lambda x: z3.Or(x == 10, x == 13)

    def eof_l(c, st, t):
        e = z3.Bool(f"eof!{fresh('e', 8)}")
        c.ex.add_pc(st, z3.And(z3.Implies(e, z3.UGE(g(st, "pos"), c.N)), z3.Implies(g(st, "hit") == 1, e)))
        return e

    def get_l(c, st, t):
        pos = g(st, "pos")
        more, ch, none = z3.ULT(pos, c.N), c.F(pos), fresh("nothing", 32)
        c.ex.add_pc(st, z3.And(none <= 0, ch > 0))
        g(st, "pos", z3.If(more, pos + 1, pos))
        g(st, "hit", z3.If(more, g(st, "hit"), I32(1)))
        return z3.If(more, z3.ZeroExt(24, ch), none)

    def app_l(c, st, t, ch):
        n, pos = g(st, "cnt"), g(st, "pos")
        start = z3.If(n == 0, pos - 1, g(st, "start"))
        ch = bv(ch, 32)
        ch = z3.Extract(7, 0, ch) if ch.size() > 8 else ch
        c.ex.side.append(("the next character of the line", list(st.pc), z3.And(W(t) == c.ret, start + n == pos - 1, z3.ULT(pos - 1, c.N), z3.UGE(pos, 1), ch == c.F(pos - 1), z3.Not(nl(ch)), g(st, "hit") == 0), st))
        g(st, "start", start)
        g(st, "cnt", n + 1)
        return t
    LC = [callee(r"^chars::chars\(", "chars", lambda c, st, *a: 0, 0), callee(r"^chars::operator\+=\(char\)", "append", app_l, 64), callee(r"^chars::append\(char\)", "append", app_l, 64),
          callee(r"cl_f::get_c\(", "get_c", get_l, 32), callee(r"cl_f::eof\(", "eof", eof_l, 1)]

    def skipped(c, st):
        return z3.Implies(z3.And(z3.ULE(c.p0, c.x), z3.ULT(c.x, g(st, "pos") - z3.If(g(st, "hit") == 1, I32(0), I32(0)))), nl(c.F(c.x)))

    def sane(c, st):
        return z3.And(z3.ULE(c.p0, g(st, "pos")), z3.ULE(g(st, "pos"), c.N))

    def mod_l0(c, st, n):
        st.ghost.update(pos=fresh("pos", 32), hit=I32(0))
    def mod_l1(c, st, n):
        st.ghost.update(pos=fresh("pos", 32), hit=fresh("hit", 32), cnt=fresh("cnt", 32), start=fresh("start", 32))

    def inv_l1(c, st, n):
        N, S, P, H = g(st, "cnt"), g(st, "start"), g(st, "pos"), g(st, "hit")
        b = z3.If(N == 0, z3.If(H == 1, P, P - 1), S)
        return [("the line so far", z3.And(z3.ULE(H, 1), z3.ULE(c.p0, b), z3.ULE(b, P), z3.Implies(H == 1, P == c.N), z3.Implies(H == 0, z3.And(z3.UGE(P, 1), z3.ULT(b, P), b + N + 1 == P)), z3.Implies(H == 1, b + N == P), z3.ULE(P, c.N))),
                ("a line begins with a character of its own", z3.Implies(z3.And(N == 0, H == 0), z3.Not(nl(c.F(P - 1))))),
                ("only newlines are skipped", z3.Implies(z3.And(z3.ULE(c.p0, c.x), z3.ULT(c.x, b)), nl(c.F(c.x))))]

    def facts_l1(c, st, vals):
        P, H = g(st, "pos"), g(st, "hit")
        r = []
        for i, v in enumerate(vals):
            v = z3.BitVecVal(v, 32) if isinstance(v, int) else v
            if isinstance(v, z3.BitVecRef) and v.size() == 32:
                r.append((("char", i), z3.If(H == 0, z3.And(v == z3.ZeroExt(24, c.F(P - 1)), v > 0), v <= 0)))
            else:
                r.append((("char", i), z3.BoolVal(False)))
        return r

    def post_l(c, e):
        st = e.st
        N, S, P, H = g(st, "cnt"), g(st, "start"), g(st, "pos"), g(st, "hit")
        e.goal("the line ends at a newline or at the end of the file", z3.If(N == 0, P == c.N, z3.Or(S + N == c.N, nl(c.F(S + N)))))
        e.goal("only newlines are skipped", z3.Implies(z3.And(z3.ULE(c.p0, c.x), z3.ULT(c.x, z3.If(N == 0, c.N, S))), nl(c.F(c.x))))
        e.goal("the newline at its end is all that is read too much", z3.Implies(N != 0, z3.ULE(P - S - N, 1)))
    GS = "cl_f::get_s()"
    u("get_s", GS, pre_l, post_l, LC, {GS: {0: Loop(lambda c, st, n: [("only newlines are skipped", skipped(c, st)), ("the place in the file", sane(c, st)), ("not at the end", g(st, "hit") == 0)], mod_l0),
                                           1: Loop(inv_l1, mod_l1, facts=facts_l1)}})

    # ------------------------------------------------------------ the queue of characters between the device and its reader
    def pre_q(c, *more):
        size, off = M.img.val["size.cl_f"], lambda f: M.field("cl_f", f)[0]
        c.q = c.array("queue", 32)
        c.fp = c.region("queue", 4, size // 4, {0: (4, c.q)})
        c.ix = {f: off(f) // 4 for f in ("first_free", "last_used", "prev_last_used", "at_end", "file_id", "buffer")}
        c.Q = lambda f, k=0: c.st.mem(c.q, I32(c.ix[f]) + k)
        c.ff, c.lu = c.Q("first_free"), c.Q("last_used")
        c.assume(z3.And(z3.ULT(c.ff, 1024), z3.ULT(c.lu, 1024)))
        c.nx = lambda v: z3.If(v == 1023, I32(0), v + 1)
        return args(c, c.fp, *more)

    def becomes(c, e, *new):
        """The queue's words change like this, all others stay."""
        def fn(k):
            v = e.old(c.q, k)
            for at, x in new:
                v = z3.If(k == at, x, v)
            return v
        e.arr(c.q, fn)
    IX = lambda c, f: I32(c.ix[f])

    def pre_put(c):
        c.ch = c.var("ch", 32)
        return pre_q(c, c.ch)

    def post_put(c, e):
        if e.case(c.nx(c.ff) == c.lu):
            becomes(c, e)
            e.goal("refused: the queue is full", bv(e.ret, 32) == -1)
        else:
            becomes(c, e, (IX(c, "buffer") + c.ff, c.ch), (IX(c, "first_free"), c.nx(c.ff)))
            e.goal("accepted", bv(e.ret, 32) == 0)

    def post_get(c, e):
        if e.case(c.ff == c.lu):
            becomes(c, e)
            e.goal("nothing there", bv(e.ret, 32) == -1)
        else:
            v = c.Q("buffer", c.lu)
            becomes(c, e, (IX(c, "last_used"), c.nx(c.lu)), (IX(c, "prev_last_used"), c.lu))
            e.goal("the oldest character", bv(e.ret, 32) == z3.If(v > 0, v & 0xff, v))

    def post_free(c, e):
        becomes(c, e)
        n = z3.If(z3.UGE(c.ff, c.lu), c.ff - c.lu, c.ff + 1024 - c.lu)
        e.goal("places left", bv(e.ret, 32) == 1023 - n)

    def post_eof(c, e):
        becomes(c, e)
        e.goal("the end: nothing waits and nothing comes any more", boolv(e.ret) == z3.Or(c.Q("file_id") < 0, z3.And(c.Q("at_end") != 0, c.ff == c.lu)))
    nopr = [callee(r"^printf", "printf", lambda c, st, *a: 0, 32), callee(r"^puts|^putchar", "printf", lambda c, st, *a: 0, 32)]
    u("queue put", "cl_f::put(int)", pre_put, post_put, nopr)
    u("queue get", "cl_f::get()", pre_q, post_get)
    u("queue free_place", "cl_f::free_place()", pre_q, post_free)
    u("queue eof", "cl_f::eof()", pre_q, post_eof)

    # a number of characters out of it
    def pre_rd(c):
        c.at_end = c.var("at_end", 32)
        c.fp = c.obj("f", "cl_io", at_end=c.at_end)
        c.st.ghost.update(taken=I32(0))
        c.max, c.there = c.var("max", 32), c.var("there", 32)
        c.assume(z3.And(c.max >= 0, z3.ULT(c.max, 1 << 20), z3.ULE(c.there, 1023)))
        c.S = z3.Function("waiting", z3.BitVecSort(32), z3.BitVecSort(32))
        c.o = c.array("out", 32)
        c.out = c.region("out", 4, 1 << 20, {0: (4, c.o)})
        c.x = c.var("x", 32)
        return args(c, c.fp, c.out, c.max)

    def get_q(c, st, t):
        k = g(st, "taken")
        more = z3.ULT(k, c.there)
        c.ex.add_pc(st, c.S(k) != -1)
        g(st, "taken", z3.If(more, k + 1, k))
        return z3.If(more, c.S(k), I32(-1))

    def mod_rd(c, st, n):
        fr = z3.Function(f"out!{fresh('r', 8)}", z3.BitVecSort(32), z3.BitVecSort(32))
        st.arr.pop("out", None)
        st.base["out"] = lambda x: z3.If(z3.ULT(bv(x, 32), idx32(n)), c.S(bv(x, 32)), fr(bv(x, 32)))
        st.ghost["taken"] = idx32(n)
    RD = "cl_f::read_dev(int*, int)"

    def post_rd(c, e):
        n, end = g(e.st, "taken"), c.at_end != 0
        e.goal("as many as are there or are wanted", n == z3.If(z3.ULT(c.there, c.max), c.there, c.max))
        e.goal("in their order", z3.Implies(z3.ULT(c.x, n), e.st.mem(c.o, c.x) == c.S(c.x)))
        e.goal("how many", z3.If(z3.ULT(I32(0), n), bv(e.ret, 32) == n, z3.Implies(z3.And(end, c.max > 0), bv(e.ret, 32) == 0)))
        e.goal("no more than that", z3.Implies(n == 0, bv(e.ret, 32) <= 0))
        e.loose_arr("out")
    u("read_dev", RD, pre_rd, post_rd, [callee(r"cl_f::get\(", "get", get_q, 32)],
      {RD: {0: Loop(lambda c, st, n: [("characters taken", g(st, "taken") == idx32(n)), ("in their order", z3.Implies(z3.ULT(c.x, idx32(n)), st.mem(c.o, c.x) == c.S(c.x))), ("so many", z3.And(z3.ULE(n, z3.ZeroExt(32, c.there)), z3.ULE(n, z3.ZeroExt(32, c.max))))], mod_rd)}})

    # one character, waiting for it
    def pre_g(c):
        c.f = c.obj("f", "cl_io")
        c.st.ghost.update(ended=z3.BoolVal(False), got=z3.BoolVal(False))
        c.ch, c.r = c.var("ch", 32), c.var("r", 32)
        return args(c, c.f)

    def check_dev(c, st, t):
        c.ex.side.append(("waits no more at the end of the file", list(st.pc), z3.Not(st.ghost["ended"]), st))
        there, end = z3.Bool(f"there!{fresh('t', 8)}"), z3.Bool(f"end!{fresh('t', 8)}")
        c.ex.add_pc(st, z3.Not(z3.And(there, end)))
        st.ghost.update(ended=end, got=there)
        return there

    def rd1(c, st, t, buf, n):
        c.ex.side.append(("one character is asked for", list(st.pc), bv(n, 32) == 1, st))
        c.ex._put(st, buf, 4, norm(z3.If(st.ghost["got"], c.ch, bv(c.ex.ld(st, buf, 4), 32))))
        c.ex.add_pc(st, z3.Implies(z3.Not(st.ghost["got"]), c.r <= 0))
        return z3.If(st.ghost["got"], I32(1), c.r)

    def post_g(c, e):
        st = e.st
        e.goal("the next character", z3.Implies(st.ghost["got"], bv(e.ret, 32) == c.ch))
        e.goal("or that there is none", z3.Implies(z3.Not(st.ghost["got"]), z3.And(bv(e.ret, 32) <= 0, st.ghost["ended"])))
    GC = "cl_f::get_c()"

    def mod_g(c, st, n):
        st.ghost.update(got=z3.BoolVal(False), ended=z3.Bool(f"ended!{fresh('e', 8)}"))
    u("get_c", GC, pre_g, post_g, [callee(r"cl_\w+::check_dev\(", "check_dev", check_dev, 1), callee(r"cl_f::read_dev\(", "read_dev", rd1, 32), callee(r"cl_f::eof\(", "eof", lambda c, st, t: st.ghost["ended"], 1)],
      {GC: {0: Loop(lambda c, st, n: [("not at the end", z3.Not(st.ghost["ended"]))], mod_g)}})
    return U


units = units6


def run(rep):
    from ..fn import run as go
    from .. import witness
    M = machine()
    rep.witness = lambda: witness.loader(M.exe)
    go(rep, M, units6)
