"""C02/C03: the address map. Decoders, bank switchers, bit banders."""
import z3

from ..fn import Machine, Unit, Lemma, Loop, callee
from ..sym import bv, boolv, fresh, norm
from .memory import args, idx32, z

DEC = "cl_address_decoder"
F = ["address_space", "memchip", "as_begin", "as_end", "chip_begin", "activated"]
BF = ["banker_as", "banker2_as", "banker_addr", "banker2_addr", "banker_mask", "banker2_mask", "banker2_shift", "nuof_banks", "bank", "banks", "shift_by",
      "shift2_by", "op1", "op2"]
MEMF = ["start_address", "size", "width", "data_mask"]
AS_, CH = "cl_address_space", "cl_chip8"
FIELDS = ([(DEC, f) for f in F] + [("cl_banker", f) for f in BF] + [("cl_bander", f) for f in ("bpc", "distance")]
          + [("cl_memory", f) for f in MEMF] + [(AS_, f) for f in ("cella", "dummy", "decoders")] + [("cl_memory_chip", "array"), ("cl_list", "count"), ("cl_list", "Items"), ("cl_list", "Limit"),
             ("cl_sorted_list", "Duplicates"), ("cl_decoder_list", "by_chip")])
W = lambda x: bv(x, 64)


class Mach(Machine):
    parents = {"cl_banker": DEC, "cl_bander": DEC, AS_: "cl_memory", CH: "cl_memory_chip", "cl_memory_chip": "cl_memory", "cl_sorted_list": "cl_list", "cl_decoder_list": "cl_sorted_list"}


def machine():
    return Mach(fields=FIELDS, classes=[DEC, "cl_banker", "cl_bander", AS_, CH, "cl_memory_cell", "cl_memory_operator", "cl_list", "cl_sorted_list", "cl_decoder_list"], tag="decoder")


def decoder(c, cls=DEC, chip=True, space=True, **k):
    """A decoder of any range of an address space to any place of a chip."""
    c.asp = c.obj("as", AS_) if space else 0
    c.chip = c.obj("chip", CH) if chip else 0
    c.b, c.e, c.cb = c.var("as_begin", 32), c.var("as_end", 32), c.var("chip_begin", 32)
    c.d = c.obj("dec", cls, address_space=c.asp, memchip=c.chip, as_begin=c.b, as_end=c.e, chip_begin=c.cb, **k)
    c.x = c.var("x", 32)
    c.assume(z3.ULT(c.e, 0xffffffff))
    c.keep_small(z3.ULT(c.e, 6))
    c.st.ghost["und"] = z3.BitVecVal(0, 8)      # was x undecoded?
    return c.d


def inr(x, b, e):
    return z3.And(z3.UGE(x, b), z3.ULE(x, e))


def flag(f):
    return z3.If(f, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def undecode(c, st, this, a):
    c.ex.side.append(("cells of this address space", list(st.pc), W(this) == c.asp, st))
    st.ghost["und"] = z3.If(bv(a, 32) == c.x, z3.BitVecVal(1, 8), st.ghost["und"])
    return 0


UND = callee(r"cl_address_space::undecode_cell\(", "undecode", undecode, 0)


def mod_und(c, st, n):
    st.ghost["und"] = fresh("und", 8)


def dec_fields(c, st, a):
    g = lambda f: bv(c.ex.ld(st, a + c.M.field(DEC, f)[0], c.M.field(DEC, f)[1]), 8 * c.M.field(DEC, f)[1])
    return g("as_begin"), g("as_end"), g("chip_begin")


def units2(M):
    U = []
    D = DEC + "::"

    # ------------------------------------------------------------ which part of the map a decoder is
    def pre(c):
        decoder(c)
        c.p, c.q = c.var("begin", 32), c.var("end", 32)
        return args(c, c.d, c.p, c.q)
    spec = {"covers": lambda b, e, p, q: z3.And(z3.UGE(p, b), z3.ULE(q, e)),
            "fully_covered_by": lambda b, e, p, q: z3.And(z3.ULE(p, b), z3.UGE(q, e)),
            "is_in": lambda b, e, p, q: z3.Or(inr(p, b, e), inr(q, b, e))}
    for k, f in spec.items():
        U.append(Unit(f"decoder.{k}", f"{D}{k}(unsigned int, unsigned int)", pre,
                      lambda c, e, f=f: (e.goal("result", boolv(e.ret) == f(c.b, c.e, c.p, c.q)), e.calls())))
    b, e, p, q = z3.BitVecs("b e p q", 32)
    U.append(Lemma("the three questions find every overlap", [
        ("overlap", z3.Implies(z3.And(z3.ULE(b, e), z3.ULE(p, q)), z3.Or([f(b, e, p, q) for f in spec.values()]) == z3.And(z3.ULE(p, e), z3.ULE(b, q))))]))

    # ------------------------------------------------------------ shrink
    def inv_s(c, st, n):
        k = idx32(n)
        lo = z3.If(z3.UGT(c.p, c.b), c.p, c.b)
        hi = z3.If(z3.ULT(c.q, c.e), c.q, c.e)
        return [("the cells up to here are undecoded", st.ghost["und"] == flag(z3.And(z3.UGE(c.x, lo), z3.ULT(c.x - lo, k)))),
                ("the end is not passed", z3.ULE(n, z3.If(z3.ULE(lo, hi), z3.ZeroExt(32, hi - lo + 1), z3.BitVecVal(0, 64))))]

    def pre_s(c):
        pre(c)
        # the two overlap at one end (what is_in means once the other two questions said no)
        c.assume(z3.ULE(c.p, c.q), z3.ULE(c.b, c.e), z3.ULT(c.q, 0xffffffff))
        c.assume(z3.Or(z3.And(z3.ULE(c.p, c.b), z3.UGE(c.q, c.b)), z3.And(z3.ULE(c.p, c.e), z3.UGE(c.q, c.e))))
        c.assume(z3.Not(spec["fully_covered_by"](c.b, c.e, c.p, c.q)))
        c.keep_small(z3.ULT(c.q, 8))
        return c.args

    def post_s(c, e):
        nb, ne, nc = dec_fields(c, e.st, c.d)
        for f in ("as_begin", "as_end", "chip_begin"):
            e.any("dec", f)
        was, out = inr(c.x, c.b, c.e), inr(c.x, c.p, c.q)
        e.goal("exactly the cells of the overlap are undecoded", e.st.ghost["und"] == flag(z3.And(was, out)))
        e.goal("the rest of the range stays", z3.Implies(z3.And(was, z3.Not(out)), z3.And(inr(c.x, nb, ne), z3.Not(boolv(e.ret)))))
        e.goal("nothing of the overlap stays", z3.Implies(z3.And(z3.Not(boolv(e.ret)), inr(c.x, nb, ne)), z3.And(was, z3.Not(out))))
        e.goal("what stays keeps its place in the chip", z3.Implies(z3.And(z3.Not(boolv(e.ret)), inr(c.x, nb, ne)), nc + (c.x - nb) == c.cb + (c.x - c.b)))
        e.goal("no range is left exactly when it is said so", boolv(e.ret) == z3.ULT(ne, nb))
    shrink = D + "shrink_out_of(unsigned int, unsigned int)"
    U.append(Unit("decoder.shrink_out_of", shrink, pre_s, post_s, [UND], {shrink: Loop(inv_s, mod_und)}))

    def pre_sn(c):
        decoder(c, space=False)
        c.p, c.q = c.var("begin", 32), c.var("end", 32)
        return args(c, c.d, c.p, c.q)
    U.append(Unit("decoder.shrink_out_of no space", shrink, pre_sn, lambda c, e: (e.goal("result", boolv(e.ret)), e.calls()), [UND]))

    # ------------------------------------------------------------ split
    def pre_p(c):
        pre(c)
        c.assume(z3.ULE(c.p, c.q), spec["covers"](c.b, c.e, c.p, c.q), z3.Not(spec["fully_covered_by"](c.b, c.e, c.p, c.q)))
        return c.args

    def inv_p(c, st, n):
        # split shrinks by everything from begin on, or by everything up to end
        lo, hi = z3.If(z3.UGT(c.p, c.b), c.p, c.b), z3.If(z3.UGT(c.p, c.b), c.e, c.q)
        return [("the cells up to here are undecoded", st.ghost["und"] == flag(z3.And(z3.UGE(c.x, lo), z3.ULT(c.x - lo, idx32(n))))),
                ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, hi - lo + 1)))]

    def post_p(c, e):
        nb, ne, nc = dec_fields(c, e.st, c.d)
        for f in ("as_begin", "as_end", "chip_begin"):
            e.any("dec", f)
        was, out = inr(c.x, c.b, c.e), inr(c.x, c.p, c.q)
        here = z3.And(inr(c.x, nb, ne), nc + (c.x - nb) == c.cb + (c.x - c.b))
        there = z3.BoolVal(False)
        n2 = inr(c.x, nb, ne)
        if isinstance(e.ret, int) and e.ret:
            b2, e2, c2 = dec_fields(c, e.st, e.ret)
            there = z3.And(inr(c.x, b2, e2), c2 + (c.x - b2) == c.cb + (c.x - c.b))
            n2 = z3.Or(n2, inr(c.x, b2, e2))
            g = lambda f: c.ex.ld(e.st, e.ret + M.field(DEC, f)[0], 8)
            e.goal("the new decoder is of the same address space", W(g("address_space")) == c.asp)
            e.goal("the new decoder is of the same chip", W(g("memchip")) == c.chip)
            e.goal("the new decoder is not yet active", bv(c.ex.ld(e.st, e.ret + M.field(DEC, "activated")[0], 1), 8) == 0)
            e.goal("the two do not overlap", z3.Or(z3.ULT(ne, b2), z3.ULT(e2, nb)))
        else:
            e.goal("no second decoder", W(e.ret) == 0)
        e.goal("what is outside is still mapped to its place", z3.Implies(z3.And(was, z3.Not(out)), z3.Or(here, there)))
        e.goal("nothing else is mapped", z3.Implies(n2, z3.And(was, z3.Not(out))))
        e.goal("the cells of the area are undecoded", z3.Implies(out, e.st.ghost["und"] == 1))
        e.goal("no cell that the first decoder keeps is undecoded", z3.Implies(inr(c.x, nb, ne), e.st.ghost["und"] == 0))
    U.append(Unit("decoder.split", D + "split(unsigned int, unsigned int)", pre_p, post_p, [UND], {shrink: Loop(inv_p, mod_und)}))

    # ------------------------------------------------------------ activation
    def decode_cell(c, st, this, a, chip, ca):
        c.ex.side.append(("cells of this address space to this chip", list(st.pc), z3.And(W(this) == c.asp, W(chip) == c.chip), st))
        c.ex.side.append(("the area is free by then", list(st.pc), st.ghost["freed"] == 1, st))
        hit = bv(a, 32) == c.x
        st.ghost["map"] = z3.If(hit, bv(ca, 32), st.ghost["map"])
        st.ghost["hit"] = z3.If(hit, z3.BitVecVal(1, 8), st.ghost["hit"])
        return z3.Bool(f"ok!{fresh('k', 1)}")

    def undecode_area(c, st, this, skip, b, e, con):
        c.ex.side.append(("the area of this decoder is freed", list(st.pc), z3.And(W(this) == c.asp, W(skip) == c.d, bv(b, 32) == c.b, bv(e, 32) == c.e), st))
        st.ghost["freed"] = z3.BitVecVal(1, 8)
        return 0

    def pre_a(cls, **k):
        def pre(c):
            decoder(c, cls, activated=c.var("activated", 8), **k)
            c.assume(z3.ULE(c.vars["activated"], 1))
            for f in ("as", "chip"):
                if f in c.objs:
                    c.assume(z3.ULT(c.vars[f + ".start_address"], 1 << 31), z3.ULT(c.vars[f + ".size"], 1 << 31))
            g = c.st.ghost
            g["map"], g["hit"], g["freed"] = z3.BitVecVal(0, 32), z3.BitVecVal(0, 8), z3.BitVecVal(0, 8)
            return args(c, c.d, 0)
        return pre

    def inv_a(c, st, n):
        done = z3.And(inr(c.x, c.b, c.e), z3.ULT(c.x - c.b, idx32(n)))
        return [("the cells up to here are mapped", z3.And(st.ghost["hit"] == flag(done), z3.Implies(done, st.ghost["map"] == c.cb + (c.x - c.b)))),
                ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.e - c.b + 1))), ("the area is free", st.ghost["freed"] == 1)]

    def mod_a(c, st, n):
        st.ghost["map"], st.ghost["hit"] = fresh("map", 32), fresh("hit", 8)

    def post_a(c, e):
        v = c.vars
        g = e.st.ghost
        if not c.asp or not c.chip:
            ok = False
        else:
            s0, sz, cs = v["as.start_address"], v["as.size"], v["chip.size"]
            ok = e.case(z3.And(v["activated"] == 0, z3.ULE(c.b, c.e), z3.ULT(c.cb, cs), z3.UGE(c.b, s0), z3.ULT(c.e, s0 + sz), z3.ULE(c.e - c.b, cs - c.cb)))
        if ok:
            e.goal("it is active", boolv(e.ret))
            e.set("dec", "activated", z3.BitVecVal(1, 8))
            e.goal("every address of the area is mapped to its place", z3.Implies(inr(c.x, c.b, c.e), z3.And(g["hit"] == 1, g["map"] == c.cb + (c.x - c.b))))
            e.goal("no other address is mapped", z3.Implies(z3.Not(inr(c.x, c.b, c.e)), g["hit"] == 0))
        else:
            e.goal("it is refused", z3.Not(boolv(e.ret)))
            e.calls()
    cs = [callee(r"cl_address_space::decode_cell\(", "decode_cell", decode_cell, 1), callee(r"cl_address_space::undecode_area\(", "undecode_area", undecode_area, 0)]
    fn = D + "activate(cl_console_base*)"
    U.append(Unit("decoder.activate", fn, pre_a(DEC), post_a, cs, {fn: Loop(inv_a, mod_a)}))
    U.append(Unit("decoder.activate no space", fn, pre_a(DEC, space=False), post_a, cs))
    U.append(Unit("decoder.activate no chip", fn, pre_a(DEC, chip=False), post_a, cs))

    # ------------------------------------------------------------ removal
    def inv_d(c, st, n):
        return [("the cells up to here are undecoded", st.ghost["und"] == flag(z3.And(inr(c.x, c.b, c.e), z3.ULT(c.x - c.b, idx32(n))))),
                ("the end is not passed", z3.ULE(n, z3.If(z3.ULE(c.b, c.e), z3.ZeroExt(32, c.e - c.b + 1), z3.BitVecVal(0, 64))))]

    def post_d(c, e):
        e.loose.update(range(c.d, c.d + c.sizeof(DEC)))
        e.goal("every cell of the area is undecoded, no other", e.st.ghost["und"] == flag(inr(c.x, c.b, c.e)))
    fn = D + "~cl_address_decoder()"
    U.append(Unit("decoder.destructor", fn, lambda c: args(c, decoder(c)), post_d, [UND, callee(r"cl_base::~cl_base\(", "base", None, 0)], {fn: Loop(inv_d, mod_und)}))

    # ------------------------------------------------------------ the whole map (short lists, any ranges)
    for n, skip in ((1, None), (1, 0), (2, None), (2, 1), (3, None), (3, 1)):
        def pre_m(c, n=n, skip=skip):
            c.asp, c.chip = c.obj("as", AS_, decoders=0), c.obj("chip", CH)
            c.ds, c.old = [], []
            for i in range(n):
                b, e, cb = c.var(f"begin{i}", 32), c.var(f"end{i}", 32), c.var(f"chip{i}", 32)
                c.assume(z3.ULE(b, e), z3.ULT(e, 0xffffffff))
                c.ds.append(c.obj(f"dec{i}", DEC, address_space=c.asp, memchip=c.chip, as_begin=b, as_end=e, chip_begin=cb, activated=1))
                c.old.append((b, e, cb))
            for i in range(n):
                for j in range(i):
                    if skip in (i, j):
                        # the new one is put into the list before it takes its area
                        c.assume(z3.ULE(c.old[j][0], c.old[i][0]))
                    else:
                        c.assume(z3.ULT(c.old[j][1], c.old[i][0]))      # in order, apart from each other
            it = c.obj("items", nbytes=64)
            for i, d in enumerate(c.ds):
                c.st.ov[it + 8 * i] = (8, d)
            lst = c.obj("list", "cl_decoder_list", count=n, Items=it, Limit=8, Duplicates=1, by_chip=0)
            c.lst, c.it = lst, it
            o, k = M.field(AS_, "decoders")
            c.st.ov[c.asp + o] = (k, lst)
            c.p, c.q = c.var("from", 32), c.var("to", 32)
            c.assume(z3.ULE(c.p, c.q), z3.ULT(c.q, 0xffffffff))
            if skip is not None:
                c.assume(c.p == c.old[skip][0], c.q == c.old[skip][1])
            c.x = c.var("x", 32)
            c.skip = skip
            return args(c, c.asp, 0 if skip is None else c.ds[skip], c.p, c.q, 0)

        def shrunk(c, st, this, p, q):
            """The contract of shrink_out_of."""
            b, e, cb = dec_fields(c, st, this)
            c.ex.side.append(("shrink: an overlap at one end", list(st.pc),
                              z3.And(z3.ULE(p, q), z3.Or(z3.And(z3.ULE(p, b), z3.UGE(q, b)), z3.And(z3.ULE(p, e), z3.UGE(q, e))), z3.Not(spec["fully_covered_by"](b, e, p, q))), st))
            left = z3.UGT(p, b)
            put = lambda f, v: c.ex._put(st, this + M.field(DEC, f)[0], 4, z3.simplify(v))
            put("as_begin", z3.If(left, b, q + 1))
            put("as_end", z3.If(left, p - 1, e))
            put("chip_begin", z3.If(left, cb, cb + (q - b) + 1))
            return z3.BoolVal(False)

        def deleted(c, st, this, *a):
            return 0

        def post_m(c, e, skip=skip):
            e.loose.update(a for nm in c.objs for a in range(c.objs[nm][0], c.objs[nm][0] + c.objs[nm][1]))
            cnt = norm(e.fld("list", "count"))
            e.goal("a list of some length", isinstance(cnt, int))
            if not isinstance(cnt, int):
                return
            items = [norm(c.ex.ld(e.st, norm(e.fld("list", "Items")) + 8 * i, 8)) for i in range(cnt)]
            e.goal("decoders", all(isinstance(a, int) and a for a in items) and len(set(items)) == cnt)
            gone = [x[1][0] for x in e.log() if x[0] == "delete"]
            e.goal("no deleted decoder is in the list", not set(gone) & set(items))
            e.goal("what is not in the list is deleted", sorted(gone) == sorted(d for d in c.ds if d not in items))
            if skip is not None:
                e.goal("the new one stays", c.ds[skip] in items and c.ds[skip] not in gone)
            now = [(a,) + dec_fields(c, e.st, a) for a in items]
            for a, b2, e2, c2 in now:
                if skip is not None and a == c.ds[skip]:
                    continue
                e.goal("no decoder overlaps the area", z3.Or(z3.ULT(e2, c.p), z3.ULT(c.q, b2)))
                e.goal("every decoder has a range", z3.ULE(b2, e2))
            for i, (b, en, cb) in enumerate(c.old):
                if i == skip:
                    continue
                kept = [z3.And(inr(c.x, b2, e2), c2 + (c.x - b2) == cb + (c.x - b)) for a, b2, e2, c2 in now if skip is None or a != c.ds[skip]]
                e.goal("what is outside of the area is still mapped to its place", z3.Implies(z3.And(inr(c.x, b, en), z3.Not(inr(c.x, c.p, c.q))), z3.Or(kept)))
            act = [x[1][0] for x in e.log() if x[0] == "activate"]
            e.goal("a decoder that was split off is active", sorted(act) == sorted(a for a in items if a not in c.ds))
            for (_, b2, _, _), (_, b3, _, _) in zip(now, now[1:] if skip is None else []):
                e.goal("the list stays in order", z3.ULE(b2, b3))
        U.append(Unit(f"space.undecode_area {n} decoders" + ("" if skip is None else " one of them new"),
                      AS_ + "::undecode_area(cl_address_decoder*, unsigned int, unsigned int, cl_console_base*)", pre_m, post_m,
                      [callee(r"cl_address_decoder::shrink_out_of\(", "shrink", shrunk, 1), callee(r"cl_address_decoder::~cl_address_decoder\(", "delete", deleted, 0),
                       callee(r"cl_address_decoder::activate\(", "activate", lambda c, st, *a: z3.BoolVal(True), 1)],
                      bounded=f"a list of {n} decoders (any ranges)"))

    # ------------------------------------------------------------ which decoder
    def pre_g(c):
        n = c.n = c.var("count", 32)
        c.assume(z3.ULT(n, 1 << 20))
        c.keep_small(z3.ULT(n, 4))
        c.x, c.addr = c.var("x", 32), c.var("addr", 32)
        c.pool = c.region("decoder", 128, z3.BitVecVal(1 << 24, 64), {0: (8, c.vtable(DEC))})
        w = z3.Function("which", z3.BitVecSort(32), z3.BitVecSort(20))
        c.ent = lambda k: c.pool + z3.Concat(z3.BitVecVal(0, 37), w(k), z3.BitVecVal(0, 7))
        c.cov = z3.Function("covers", z3.BitVecSort(32), z3.BoolSort())
        lst = c.obj("list", "cl_list", count=n, vptr="cl_decoder_list")
        a = c.obj("as", AS_, decoders=lst)
        c.lst = lst
        return args(c, a, c.addr)

    def at(c, st, this, i):
        c.ex.side.append(("an element of the list", list(st.pc), z3.And(W(this) == c.lst, z3.ULT(bv(i, 32), c.n)), st))
        st.ghost["at"] = bv(i, 32)
        return c.ent(bv(i, 32))

    def covers(c, st, this, p, q):
        k = st.ghost["at"]
        c.ex.side.append(("asked of the element for this address", list(st.pc), z3.And(W(this) == c.ent(k), bv(p, 32) == c.addr, bv(q, 32) == c.addr), st))
        return c.cov(k)

    def inv_g(c, st, n):
        return [("none before covers it", z3.Implies(z3.ULT(c.x, idx32(n)), z3.Not(c.cov(c.x)))), ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))]

    def post_g(c, e):
        if e.case(W(e.ret) != 0):
            k = e.st.ghost["at"]
            e.goal("a decoder of the list that covers the address", z3.And(z3.ULT(k, c.n), c.cov(k), W(e.ret) == c.ent(k)))
        else:
            e.goal("no decoder covers it", z3.Implies(z3.ULT(c.x, c.n), z3.Not(c.cov(c.x))))
    fn = AS_ + "::get_decoder_of(unsigned int)"

    def mod_g(c, st, n):
        st.ghost["at"] = fresh("at", 32)
    U.append(Unit("space.get_decoder_of", fn, pre_g, post_g, [callee(r"cl_list::(at|object_at)\(", "at", at, 64), callee(r"cl_address_decoder::covers\(", "covers", covers, 1)],
                  {fn: Loop(inv_g, mod_g)}))
    return U


def units3(M):
    U = []
    B = z3.BitVecSort(32)
    OFF = lambda f: M.field(DEC, f)

    # ------------------------------------------------------------ bank switching
    def banker(c, two=False, **k):
        n = c.n = c.var("nuof_banks", 32)
        c.assume(z3.UGT(n, 0), z3.ULT(n, 1 << 16))
        c.keep_small(z3.ULT(n, 4))
        c.asp, c.bas = c.obj("as", AS_), c.obj("bank_as", AS_)
        c.bas2 = c.obj("bank2_as", AS_) if two else 0
        c.chips = c.region("chip", 64, z3.BitVecVal(1 << 20, 64), {0: (8, c.vtable(CH))})
        cof = z3.Function("chip_of", B, z3.BitVecSort(16))
        c.chipof = lambda k: c.chips + z3.Concat(z3.BitVecVal(0, 42), cof(k), z3.BitVecVal(0, 6))
        c.CB = c.array("chip_begin", 32)
        f = {0: (8, c.vtable(DEC)), OFF("memchip")[0]: (8, lambda st, i: c.chipof(bv(i, 32))), OFF("chip_begin")[0]: (4, c.CB)}
        c.decs = c.region("bank_decoder", 128, z3.BitVecVal(1 << 20, 64), f)
        c.has = z3.Function("has_bank", B, z3.BoolSort())
        c.BK = c.array("banks", 64)
        c.entry = lambda k: c.decs + z3.Concat(z3.BitVecVal(0, 41), z3.Extract(15, 0, k), z3.BitVecVal(0, 7))
        c.st.base["banks"] = lambda k: z3.If(c.has(bv(k, 32)), c.entry(bv(k, 32)), z3.BitVecVal(0, 64))
        c.banks = c.region("banks", 8, z3.ZeroExt(32, n), {0: (8, c.BK)})
        c.cells = c.region("cell", 32, z3.BitVecVal(1 << 32, 64), {0: (8, c.vtable("cl_cell8"))})
        c.b, c.e = c.var("as_begin", 32), c.var("as_end", 32)
        c.assume(z3.ULE(c.b, c.e), z3.ULT(c.e, 0xffffffff), z3.Or(c.b != 0, c.e != 0xffffffff))
        c.keep_small(z3.ULT(c.e - c.b, 4))
        c.bank = c.var("bank", 32)
        c.d = c.obj("banker", "cl_banker", address_space=c.asp, memchip=0, as_begin=c.b, as_end=c.e, banker_as=c.bas, banker2_as=c.bas2, banks=c.banks,
                    nuof_banks=n, bank=c.bank, **k)
        c.x = c.var("x", 32)
        c.slot = z3.Function("slot", z3.BitVecSort(64), B, z3.BitVecSort(64))
        c.st.ghost["shown"] = z3.BitVecVal(0, 64)
        c.st.ghost["hit"] = z3.BitVecVal(0, 8)
        return c.d

    def get_slot(c, st, this, a):
        return c.slot(W(this), bv(a, 32))

    def get_cell(c, st, this, a):
        c.ex.side.append(("cells of this address space", list(st.pc), W(this) == c.asp, st))
        return c.cells + z3.ZeroExt(32, bv(a, 32)) * 32

    def decode(c, st, this, p):
        hit = W(this) == c.cells + z3.ZeroExt(32, c.x) * 32
        st.ghost["shown"] = z3.If(hit, W(p), st.ghost["shown"])
        st.ghost["hit"] = z3.If(hit, z3.BitVecVal(1, 8), st.ghost["hit"])
        return 0

    def inv(c, st, n):
        done = z3.And(inr(c.x, c.b, c.e), z3.ULT(c.x - c.b, idx32(n)))
        return [("the cells up to here show the bank", z3.And(st.ghost["hit"] == flag(done), z3.Implies(done, st.ghost["shown"] == c.want(c.x - c.b)))),
                ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.e - c.b) + 1))]

    def mod(c, st, n):
        st.ghost["shown"], st.ghost["hit"] = fresh("shown", 64), fresh("hit", 8)

    def pre_sw(c, act=False):
        banker(c)
        c.nr = c.var("bank_nr", 32)
        c.valid = z3.ULT(c.nr, c.n)
        if act:
            c.assume(c.valid)
        c.want = lambda off: c.slot(c.chipof(z3.ZeroExt(16, z3.Extract(15, 0, c.nr))), c.st.mem(c.CB, z3.ZeroExt(16, z3.Extract(15, 0, c.nr))) + off)
        return args(c, c.d, *([] if act else [c.nr]), 0)

    def post_sw(c, e, act=False):
        g = e.st.ghost
        if not act:
            e.goal("told whether the bank is there", boolv(e.ret) == z3.Or(c.nr == c.bank, z3.And(c.valid, c.has(c.nr))))
        if e.case(z3.And(c.nr != c.bank, c.valid, c.has(c.nr))):
            e.set("banker", "bank", c.nr)
            e.goal("every address of the area shows the place of the bank", z3.Implies(inr(c.x, c.b, c.e), z3.And(g["hit"] == 1, g["shown"] == c.want(c.x - c.b))))
            e.goal("no other address is touched", z3.Implies(z3.Not(inr(c.x, c.b, c.e)), g["hit"] == 0))
        else:
            e.goal("nothing changes", g["hit"] == 0)
    cs = [callee(r"cl_memory_chip::get_slot\(", "get_slot", get_slot, 64), callee(r"cl_address_space::get_cell\(", "get_cell", get_cell, 64),
          callee(r"cl_memory_cell::decode\(void\*\)", "decode", decode, 0)]
    fn = "cl_banker::switch_to(int, cl_console_base*)"
    U.append(Unit("banker.switch_to", fn, pre_sw, post_sw, cs, {fn: Loop(inv, mod)}))
    fn2 = "cl_banker::activate(cl_console_base*)"
    U.append(Unit("banker.activate", fn2, lambda c: pre_sw(c, True), lambda c, e: post_sw(c, e, True),
                  cs + [callee(r"cl_banker::actual_bank\(", "actual_bank", lambda c, st, *a: c.nr, 32)], {fn2: Loop(inv, mod), fn: Loop(inv, mod)}))

    # the selected bank
    for two in (False, True):
        def pre_ab(c, two=two):
            banker(c, two)
            c.rd = {}
            for f in ("shift_by", "shift2_by", "banker2_shift"):
                c.assume(z3.ULT(c.fld("banker", f), 32))
            return args(c, c.d)

        def readsel(c, st, this, a):
            r = fresh("selector", 32)
            return r

        def post_ab(c, e, two=two):
            v = lambda f: bv(c.fld("banker", f), 32)
            lg = e.log()
            want = [("read", c.bas, v("banker_addr"))]
            second = two and e.case(v("banker2_mask") != 0)
            if second:
                want.append(("read", c.bas2, v("banker2_addr")))
            e.calls(*want)
            if len(lg) == len(want):
                r = z3.LShR(lg[0][2] & v("banker_mask"), v("shift_by"))
                if second:
                    r = r | (z3.LShR(lg[1][2] & v("banker2_mask"), v("shift2_by")) << v("banker2_shift"))
                e.ret_is(r)
        U.append(Unit("banker.actual_bank" + (" two selectors" if two else ""), "cl_banker::actual_bank()", pre_ab, post_ab,
                      [callee(r"cl_address_space::read\(unsigned int\)", "read", readsel, 32)]))

    # how many banks there are and where the selector is
    def low(n, w=32):
        return (z3.BitVecVal(1, w) << n) - 1

    for two in (False, True):
        def pre_in(c, two=two):
            banker(c, two)
            c.m1, c.m2 = bv(c.fld("banker", "banker_mask"), 32), bv(c.fld("banker", "banker2_mask"), 32)
            for m in (c.m1, c.m2):
                # a field of adjacent bits, at most 2^10 banks each
                c.assume(m != 0, ((m | (m - 1)) + 1) & m == 0, z3.ULT(m, 1 << 10))
            c.keep_small(z3.ULT(c.m1, 4), z3.ULT(c.m2, 4))
            c.cell1, c.cell2 = c.obj("cell1", "cl_memory_cell"), c.obj("cell2", "cl_memory_cell")
            return args(c, c.d)

        def mask_of(k):
            return lambda c: (c.m1, c.m2)[k]

        def sh(k):
            return ("shift_by", "shift2_by")[k]

        def zeros(k):
            m = mask_of(k)
            return Loop(lambda c, st, n: [("the bits below are zero", m(c) & low(idx32(n)) == 0), ("not past the mask", z3.ULT(n, 10)),
                                          ("the shift", bv(c.fld("banker", sh(k), st), 32) == idx32(n))],
                        lambda c, st, n: c.ex._put(st, c.addr("banker", sh(k)), 4, idx32(n)),
                        track=(lambda c, st, n: z3.LShR(m(c), idx32(n)),))

        def ones(k):
            m = mask_of(k)
            S = lambda c, st: bv(c.fld("banker", sh(k), st), 32)
            return Loop(lambda c, st, n: [("the bits from the shift on are one", z3.LShR(m(c), S(c, st)) & low(idx32(n) + 1) == low(idx32(n) + 1)), ("not past the mask", z3.ULT(n, 10))],
                        None, track=(lambda c, st, n: z3.LShR(m(c), S(c, st) + 1 + idx32(n)), lambda c, st, n: z3.LShR(m(c), S(c, st) + idx32(n))))

        def inv_null(c, st, n):
            return [("the banks up to here are empty", z3.Implies(z3.ULT(c.x, idx32(n)), st.mem(c.newarr, c.x) == 0)),
                    ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, bv(c.fld("banker", "nuof_banks", st), 32))))]

        def mod_null(c, st, n):
            c.havoc_arr(st, c.newarr)

        def alloc(c, st, nb):
            as_ = c.array("newbanks", 64)
            c.new, c.newarr = c.region("newbanks", 8, z3.LShR(W(nb), 3), {0: (8, as_)}), as_
            c.ex.rgns = c.rg
            return c.new

        def gcell(c, st, this, a):
            first = c.holds(st, W(this) == c.bas)
            return c.cell1 if first else c.cell2

        def post_in(c, e, two=two):
            s1, s2 = bv(e.fld("banker", "shift_by"), 32), bv(e.fld("banker", "shift2_by"), 32)
            nb = bv(e.fld("banker", "nuof_banks"), 32)
            for f in ("shift_by", "shift2_by", "nuof_banks", "banks", "op1", "op2"):
                e.any("banker", f)
            e.loose_arr("newbanks")
            w1 = z3.LShR(c.m1, s1) + 1
            e.goal("the shift of the selector", z3.And(c.m1 & low(s1) == 0, z3.LShR(c.m1, s1) & 1 == 1))
            tot = w1
            if two:
                e.goal("the shift of the second selector", z3.And(c.m2 & low(s2) == 0, z3.LShR(c.m2, s2) & 1 == 1))
                tot = w1 * (z3.LShR(c.m2, s2) + 1)
            e.goal("one bank for every value of the selector", nb == tot)
            if hasattr(c, "new"):
                e.goal("the banks", W(e.fld("banker", "banks")) == c.new)
                e.goal("no bank is there yet", z3.Implies(z3.ULT(c.x, nb), e.st.mem(c.newarr, c.x) == 0))
            pp = [x for x in e.log() if x[0] == "prepend"]
            ctor = {x[1][0]: x[1] for x in e.log() if x[0] == "switcher"}
            e.goal("a switcher on every selector", len(pp) == 1 + two and len(ctor) == 1 + two)
            if len(pp) == 1 + two:
                for i, (x, cl) in enumerate(zip(pp, (c.cell1, c.cell2))):
                    e.goal(f"switcher {i}: on the selector's cell", W(x[1][0]) == cl)
                    o = x[1][1]
                    e.goal(f"switcher {i}: it switches this banker", o in ctor and z3.And(W(ctor[o][1]) == cl, W(ctor[o][2]) == c.d))
                    e.goal(f"switcher {i}: remembered", W(e.fld("banker", ("op1", "op2")[i])) == W(o))
            gc = [x for x in e.log() if x[0] == "get_cell"]
            for x, f, sp in zip(gc, ("banker_addr", "banker2_addr"), (c.bas, c.bas2)):
                e.goal("the selector's address", z3.And(W(x[1][0]) == sp, bv(x[1][1], 32) == bv(c.fld("banker", f), 32)))
        fn = "cl_banker::init()"
        U.append(Unit("banker.init" + (" two selectors" if two else ""), fn, pre_in, post_in,
                      [callee(r"malloc", "malloc", alloc, 64), callee(r"cl_address_space::get_cell\(", "get_cell", gcell, 64),
                       callee(r"cl_bank_switcher_operator::cl_bank_switcher_operator\(", "switcher", None, 0),
                       callee(r"cl_memory_cell::prepend_operator\(", "prepend", None, 0)],
                      {fn: {0: zeros(0), 1: ones(0), 2: zeros(1), 3: ones(1), 4: Loop(inv_null, mod_null)}}))

    # a new bank
    def pre_add(c):
        banker(c)
        c.chip = c.obj("newchip", CH)
        c.nr, c.cs = c.var("bank_nr", 32), c.var("chip_start", 32)
        c.assume(z3.ULT(c.nr, 1 << 31))
        return args(c, c.d, c.nr, c.chip, c.cs)

    def post_add(c, e):
        names = [x[0] for x in e.log()]
        if not e.case(z3.ULT(c.nr, c.n)):
            e.calls()
            return
        new = e.st.mem(c.BK, c.nr)
        had = c.has(c.nr)
        e.arr(c.BK, lambda k: z3.If(k == c.nr, new, e.old(c.BK, k)))
        vals = c.ex.values(e.st, bv(new, 64), 2)
        e.goal("the bank is a new decoder", len(vals) == 1)
        if len(vals) == 1:
            a = vals[0]
            b2, e2, c2 = dec_fields(c, e.st, a)
            e.goal("of the area of the banker", z3.And(b2 == c.b, e2 == c.e))
            e.goal("to its place in the chip", z3.And(c2 == c.cs, W(c.ex.ld(e.st, a + OFF("memchip")[0], 8)) == c.chip))
        # the old decoder's removal undecodes the area: the bank in use has to be mapped again
        if e.case(had):
            e.goal("the old one is deleted", names.count("delete") == 1)
            e.any("banker", "bank")
            e.goal("the area is mapped again", z3.Or(e.st.ghost["bank_at_activate"] == 0xffffffff))
        else:
            e.goal("nothing is deleted", names.count("delete") == 0)
        e.goal("the bank in use is mapped in the end", names[-1:] == ["activate"])

    def act(c, st, *a):
        st.ghost["bank_at_activate"] = bv(c.fld("banker", "bank", st), 32)
        return z3.BoolVal(True)
    U.append(Unit("banker.add_bank", "cl_banker::add_bank(int, cl_memory*, unsigned int)", pre_add, post_add,
                  [callee(r"cl_address_decoder::~cl_address_decoder\(", "delete", None, 0), callee(r"cl_banker::activate\(", "activate", act, 1)]))

    # the index of the bank is one of the banks
    v1, v2, m1, m2, s1, s2, sh2 = z3.BitVecs("v1 v2 m1 m2 s1 s2 sh2", 32)
    field = lambda m, s: z3.And(m != 0, z3.ULT(m, 1 << 10), z3.ULT(s, 10), m & low(s) == 0, z3.LShR(m, s) & 1 == 1, (z3.LShR(m, s) + 1) & z3.LShR(m, s) == 0)
    U.append(Lemma("the selected bank is one of the banks", [
        ("one selector", z3.Implies(field(m1, s1), z3.ULT(z3.LShR(v1 & m1, s1), z3.LShR(m1, s1) + 1))),
        ("two selectors", z3.Implies(z3.And(field(m1, s1), field(m2, s2), z3.ULT(sh2, 10), z3.LShR(m1, s1) + 1 == z3.BitVecVal(1, 32) << sh2),
                                     z3.ULT(z3.LShR(v1 & m1, s1) | (z3.LShR(v2 & m2, s2) << sh2), (z3.LShR(m1, s1) + 1) * (z3.LShR(m2, s2) + 1))))]))

    # ------------------------------------------------------------ bit bands
    for bpc in (1, 2, 4, 8, 16, 32):
        def pre_bd(c, bpc=bpc):
            decoder(c, "cl_bander", bpc=bpc)
            c.dist = c.fld("dec", "distance")
            c.assume(z3.ULE(c.b, c.e))
            c.cells = c.region("cell", 32, z3.BitVecVal(1 << 32, 64), {0: (8, c.vtable("cl_bit_cell8"))})
            c.slot = z3.Function("slot", B, z3.BitVecSort(64))
            # place(q) = chip_begin + q * distance, defined step by step
            c.place = z3.Function("place", B, B)
            c.assume(c.place(z3.BitVecVal(0, 32)) == c.cb)
            for i in range(8 if c.small_mode else 0):
                c.assume(c.place(z3.BitVecVal(i + 1, 32)) == c.place(z3.BitVecVal(i, 32)) + c.dist)
            g = c.st.ghost
            g["shown"], g["mask"], g["hit"], g["freed"] = z3.BitVecVal(0, 64), z3.BitVecVal(0, 32), z3.BitVecVal(0, 8), z3.BitVecVal(0, 8)
            return args(c, c.d, 0)

        q = lambda k, lg=bpc.bit_length() - 1: z3.LShR(k, lg)
        r = lambda k, bpc=bpc: k & (bpc - 1)

        def want(c, off, q=q, r=r):
            return c.slot(c.place(q(off))), z3.BitVecVal(1, 32) << r(off)

        def bslot(c, st, this, a):
            c.ex.side.append(("slots of this chip", list(st.pc), W(this) == c.chip, st))
            return c.slot(bv(a, 32))

        def bdec(c, st, this, p, m):
            hit = W(this) == c.cells + z3.ZeroExt(32, c.x) * 32
            g = st.ghost
            g["shown"], g["mask"], g["hit"] = z3.If(hit, W(p), g["shown"]), z3.If(hit, bv(m, 32), g["mask"]), z3.If(hit, z3.BitVecVal(1, 8), g["hit"])
            c.ex.side.append(("the area is free by then", list(st.pc), g["freed"] == 1, st))
            return 0

        def freed(c, st, this, skip, b, e, con):
            c.ex.side.append(("the area of this decoder is freed", list(st.pc), z3.And(W(this) == c.asp, W(skip) == c.d, bv(b, 32) == c.b, bv(e, 32) == c.e), st))
            st.ghost["freed"] = z3.BitVecVal(1, 8)
            return 0

        def inv_bd(c, st, n, want=want):
            done = z3.And(inr(c.x, c.b, c.e), z3.ULT(c.x - c.b, idx32(n)))
            sl, m = want(c, c.x - c.b)
            return [("the bits up to here are mapped", z3.And(st.ghost["hit"] == flag(done), z3.Implies(done, z3.And(st.ghost["shown"] == sl, st.ghost["mask"] == m)))),
                    ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.e - c.b + 1))), ("the area is free", st.ghost["freed"] == 1)]

        def mod_bd(c, st, n):
            g = st.ghost
            g["shown"], g["mask"], g["hit"] = fresh("shown", 64), fresh("mask", 32), fresh("hit", 8)

        def post_bd(c, e, want=want):
            g = e.st.ghost
            sl, m = want(c, c.x - c.b)
            e.set("dec", "activated", z3.BitVecVal(1, 8))
            e.goal("every address shows its bit", z3.Implies(inr(c.x, c.b, c.e), z3.And(g["hit"] == 1, g["shown"] == sl, g["mask"] == m)))
            e.goal("no other address is mapped", z3.Implies(z3.Not(inr(c.x, c.b, c.e)), g["hit"] == 0))
        # at the head of round n the bit number may still be that of the end of the slot
        prev = lambda n: idx32(n) - 1
        nb = lambda n, r=r: z3.If(idx32(n) == 0, z3.BitVecVal(0, 32), r(prev(n)) + 1)
        tr = (lambda c, st, n, q=q: z3.If(idx32(n) == 0, c.cb, c.place(q(prev(n)))),
              lambda c, st, n, nb=nb: nb(n), lambda c, st, n, nb=nb: z3.BitVecVal(1, 32) << nb(n))

        def defs(c, st, n, q=q):
            k = idx32(n)
            return [c.place(q(k)) == z3.If(q(k) == 0, c.cb, c.place(q(k) - 1) + c.dist)]
        fn = "cl_bander::activate(cl_console_base*)"
        U.append(Unit(f"bander.activate {bpc} bits", fn, pre_bd, post_bd,
                      [callee(r"cl_memory_chip::get_slot\(", "get_slot", bslot, 64), callee(r"cl_address_space::get_cell\(", "get_cell", get_cell, 64),
                       callee(r"cl_memory_cell::decode\(void\*, unsigned int\)", "decode", bdec, 0), callee(r"cl_address_space::undecode_area\(", "undecode_area", freed, 0)],
                      {fn: Loop(inv_bd, mod_bd, track=tr, defs=defs)}))
    return U


def run2(rep):
    from .. import fn
    fn.run(rep, machine, units2)


def run3(rep):
    from .. import fn
    fn.run(rep, machine, units3)


def units(M):
    return units2(M) + units3(M)
