"""C01: memory cells, address spaces and chips."""
import z3

from ..fn import Machine, Unit, Loop, callee, const_ret
from ..sym import bv, boolv, fresh, NOTMINE

RO, ND, FB = 0x10, 0x40, 0x01

CELLS = {"cl_cell8": 8, "cl_cell16": 16, "cl_cell32": 32, "cl_bit_cell8": 8, "cl_bit_cell16": 16, "cl_bit_cell32": 32, "cl_dummy_cell": 32}
CHIPS = {"cl_chip8": 8, "cl_chip16": 16, "cl_chip32": 32}
OPS = ("cl_hw_operator", "cl_bank_switcher_operator")
SPACE = "cl_address_space"
MEMF = ["start_address", "size", "width", "data_mask", "uc"]
FIELDS = ([("cl_memory_cell", f) for f in ("data", "mask", "width", "flags", "ops", "def_data") if f != "def_data"]
          + [(SPACE, f) for f in MEMF + ["cella", "dummy", "decoders"]]
          + [("cl_memory_chip", f) for f in MEMF + ["array", "alloc_size", "bwidth", "init_value", "array_is_mine"]]
          + [("cl_memory_operator", f) for f in ("mask", "cell")]
          + [("cl_hw", "active"), ("cl_hw", "category"), ("cl_hw_operator", "hw"), ("cl_bank_switcher_operator", "banker")])


class Mach(Machine):
    parents = {k: "cl_memory_cell" for k in CELLS}
    parents.update({k: "cl_memory_chip" for k in CHIPS})
    parents.update({k: "cl_memory_operator" for k in OPS})


def machine():
    return Mach(fields=FIELDS, classes=["cl_memory_cell", SPACE, "cl_memory_chip", *CELLS, *CHIPS, "cl_memory_operator", *OPS, "cl_hw", "cl_banker"],
                tag="core", probes={"=RO": "CELL_READ_ONLY", "=ND": "CELL_NON_DECODED", "=FB": "CELL_FETCH_BRK"})


def args(c, *a):
    c.args = list(a)
    return c.args


def z(e, w=32):
    return z3.ZeroExt(w - e.size(), e) if e.size() < w else e


def cell(c, cls, ops=0, **k):
    """A cell whose data points at a slot of arbitrary content."""
    w = CELLS[cls]
    sa = c.obj("slot", nbytes=8)
    s = c.var("slot", w)
    c.st.ov = {a: e for a, e in c.st.ov.items() if not sa <= a < sa + 8}
    c.st.ov[sa] = (w // 8, s)
    for i in range(w // 8, 8):
        c.st.ov[sa + i] = (1, c.var(f"beyond{i}", 8))
    this = c.obj("cell", cls, data=sa, ops=ops, **k)
    return this, sa, s


def stored(cls, s, val, mask, width):
    """What the slot holds after val was put into the cell."""
    w = CELLS[cls]
    x = z3.If(width == 1, val, val & mask)
    if cls.startswith("cl_bit"):
        m = z3.Extract(w - 1, 0, mask)
        return z3.If(x != 0, s | m, s & ~m)
    return z3.Extract(w - 1, 0, x)


def seen(cls, s, mask):
    if cls.startswith("cl_bit"):
        return z3.If((s & z3.Extract(CELLS[cls] - 1, 0, mask)) != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return z(s)


def idx32(x):
    return z3.Extract(31, 0, x)


def space(c, cellcls="cl_cell8", name="as", cls=SPACE, dummy=True, **k):
    """An address space of any start and size; -> (this, start, size, valid(addr), cell address of addr)."""
    start, size = c.var("start", 32), c.var("size", 32)
    c.assume(z3.ULT(size, 1 << 30), z3.ULT(start, 1 << 31), z3.UGT(size, 0))
    c.keep_small(z3.ULT(size, 16), z3.ULT(start, 64))
    cella = c.region("cella", c.sizeof("cl_memory_cell"), z3.ZeroExt(32, size), {0: (8, c.vtable(cellcls))})
    da = c.obj("dummy", "cl_dummy_cell")
    uc = 0
    this = c.obj(name, cls, start_address=start, size=size, cella=cella, dummy=da, uc=uc, **k)
    c.valid = lambda a: z3.And(z3.UGE(a, start), z3.ULT(a - start, size))
    sz = c.sizeof("cl_memory_cell")
    c.cellof = lambda a: z3.ZeroExt(32, a - start) * sz + cella
    c.start, c.size, c.cella, c.dummy = start, size, cella, da
    # the index of the cell at this address
    c.index = lambda p: idx32(z3.LShR(bv(p, 64) - cella, sz.bit_length() - 1))
    return this


def spaces(M):
    U = []
    W = lambda x: bv(x, 64)

    def access(fn, cell_rx, dummy_rx, extra, ret, err=True):
        """One access: the cell of this address, or for an address outside: an error report and the dummy cell."""
        nm = fn.split("::")[1]

        def pre(c):
            this = space(c)
            c.addr = c.var("addr", 32)
            c.this = this
            c.xa = [c.bvar("x%d" % i) if w == 1 else c.var("x%d" % i, w) for i, w in enumerate(extra)]
            return args(c, this, c.addr, *c.xa)

        def post(c, e):
            pas = list(c.xa)
            if "set_cell_flag" in fn:
                pas.reverse()
            if e.case(c.valid(c.addr)):
                e.calls(("cell", c.cellof(c.addr), *pas))
                r = e.log()[-1][2] if e.log() else None
            elif err:
                e.calls(("err", c.this, c.addr), ("dummy", c.dummy, *([] if "hw_cath" in fn else pas)))
            else:
                e.calls(("dummy", c.dummy, *pas))
            if ret and e.log():
                r = e.log()[-1][2]
                if isinstance(r, z3.BoolRef):
                    e.goal("result", boolv(e.ret) == r)
                elif r is not None:
                    e.ret_is(z3.ZeroExt(24, r) if r.size() == 8 else r)

        def role(c, st, *a):
            d = c.holds(st, bv(a[0], 64) == c.dummy)
            r = 0 if not ret else z3.Bool(f"r!{fresh('k', 1)}") if ret == 1 else fresh("r", ret)
            return "dummy" if d else "cell", r
        cs = [callee(r"cl_memory::err_inv_addr\(", "err", None, 0)]
        cs += [callee(rx, "cell|dummy", role, ret) for rx in sorted({cell_rx, dummy_rx})]
        U.append(Unit(f"space.{nm}", fn, pre, post, cs))
    A = "cl_address_space::"
    access(A + "read(unsigned int)", r"cl_memory_cell::read\(\)", r"cl_memory_cell::read\(\)", [], 32)
    access(A + "read(unsigned int, hw_cath)", r"cl_memory_cell::read\(hw", r"cl_memory_cell::read\(\)", [32], 32)
    access(A + "get(unsigned int)", r"cl_memory_cell::get\(", r"cl_memory_cell::get\(", [], 32)
    access(A + "write(unsigned int, unsigned int)", r"cl_memory_cell::write\(", r"cl_dummy_cell::write\(", [32], 32)
    access(A + "set(unsigned int, unsigned int)", r"cl_memory_cell::set\(", r"cl_dummy_cell::set\(", [32], 0)
    access(A + "download(unsigned int, unsigned int)", r"cl_memory_cell::download\(", r"cl_memory_cell::download\(", [32], 0)
    access(A + "get_cell_flag(unsigned int)", r"cl_memory_cell::get_flags\(", r"cl_memory_cell::get_flags\(", [], 8, err=False)
    access(A + "get_cell_flag(unsigned int, cell_flag)", r"cl_memory_cell::get_flag\(", r"cl_memory_cell::get_flag\(", [32], 1, err=False)
    access(A + "set_cell_flag(unsigned int, bool, cell_flag)", r"cl_memory_cell::set_flag\(", r"cl_memory_cell::set_flag\(", [1, 32], 0, err=False)

    # get_cell: the cell itself
    def pre(c):
        c.this = space(c)
        c.addr = c.var("addr", 32)
        return args(c, c.this, c.addr)

    def post(c, e):
        if e.case(c.valid(c.addr)):
            e.goal("result", W(e.ret) == c.cellof(c.addr))
            e.calls()
        else:
            e.goal("result", W(e.ret) == c.dummy)
            e.calls(("err", c.this, c.addr))
    U.append(Unit("space.get_cell", A + "get_cell(unsigned int)", pre, post, [callee(r"cl_memory::err_inv_addr\(", "err", None, 0)]))

    # ranges of flags: exactly the addresses of the range
    def pre_r(c):
        c.this = space(c)
        c.x = c.var("x", 32)
        c.a, c.b = c.var("from", 32), c.var("to", 32)
        c.assume(c.b != 0xffffffff)
        c.keep_small(z3.ULT(c.b, 8), z3.ULT(c.a, 8))
        c.v, c.fl = c.bvar("set_to"), c.var("flag", 32)
        c.st.ghost["hit"] = z3.BitVecVal(0, 8)
        return args(c, c.this, c.a, c.b, c.v, c.fl)

    def one(c, st, this, a, v, fl):
        c.ex.side.append(("the flag and the value asked for", list(st.pc), z3.And(boolv(v) == c.v, bv(fl, 32) == c.fl, W(this) == c.this), st))
        st.ghost["hit"] = z3.If(bv(a, 32) == c.x, z3.BitVecVal(1, 8), st.ghost["hit"])
        return 0

    def inv_r(c, st, n):
        k = idx32(n)
        return [("the addresses up to here are done", st.ghost["hit"] == z3.If(z3.And(z3.UGE(c.x, c.a), z3.ULT(c.x - c.a, k)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))),
                ("the end is not passed", z3.ULE(n, z3.If(z3.ULE(c.a, c.b), z3.ZeroExt(32, c.b - c.a + 1), z3.BitVecVal(0, 64))))]

    def mod_r(c, st, n):
        st.ghost["hit"] = fresh("hit", 8)

    def post_r(c, e):
        e.goal("exactly the addresses of the range", e.st.ghost["hit"] == z3.If(z3.And(z3.UGE(c.x, c.a), z3.ULE(c.x, c.b)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    fn = A + "set_cell_flag(unsigned int, unsigned int, bool, cell_flag)"
    U.append(Unit("space.set_cell_flag range", fn, pre_r, post_r,
                  [callee(r"cl_address_space::set_cell_flag\(unsigned int, bool", "one", one, 0)], {fn: Loop(inv_r, mod_r)}))

    # search_cell: the first one that fits
    def pre_s(c, null=False):
        c.this = space(c)
        c.F = z3.Function("flag_of", z3.BitVecSort(32), z3.BoolSort())
        c.x = c.var("x", 32)
        c.v, c.fl = c.bvar("value"), c.var("flag", 32)
        c.out = c.obj("out", nbytes=8)
        return args(c, c.this, c.fl, c.v, c.out)

    def flag_of(c, st, this, fl):
        c.ex.side.append(("the flag asked for", list(st.pc), bv(fl, 32) == c.fl, st))
        return c.F(c.index(this))

    def inv_s(c, st, n):
        return [("no cell before fits", z3.Implies(z3.ULT(c.x, idx32(n)), c.F(c.x) != c.v)), ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.size)))]

    def post_s(c, e):
        found = W(e.ret) != 0
        if e.case(found):
            k = c.index(e.ret)
            e.goal("a cell of this space", W(e.ret) == z3.ZeroExt(32, k) * c.sizeof("cl_memory_cell") + c.cella)
            e.goal("the cell fits", z3.And(z3.ULT(k, c.size), c.F(k) == c.v))
            e.goal("it is the first", z3.Implies(z3.ULT(c.x, k), c.F(c.x) != c.v))
            e.set_addr(c.out, 4, k)
        else:
            e.goal("no cell fits", z3.Implies(z3.ULT(c.x, c.size), c.F(c.x) != c.v))
    fn = A + "search_cell(cell_flag, bool, unsigned int*)"
    U.append(Unit("space.search_cell", fn, pre_s, post_s, [callee(r"cl_memory_cell::get_flag\(", "get_flag", flag_of, 1)], {fn: Loop(inv_s)}))

    # is_owned
    def pre_o(c):
        c.this = space(c)
        c.p, c.out = c.var("p", 64), c.obj("out", nbytes=8)
        c.k = c.var("k", 32)
        # either a cell of the space or anything that lies outside of it
        sz = c.sizeof("cl_memory_cell")
        inside = z3.And(z3.ULT(c.k, c.size), c.p == z3.ZeroExt(32, c.k) * sz + c.cella)
        c.inside = inside
        c.assume(z3.Or(inside, z3.ULT(c.p, c.cella), z3.UGE(c.p, z3.ZeroExt(32, c.size) * sz + c.cella)))
        return args(c, c.this, c.p, c.out)

    def post_o(c, e):
        if e.case(c.inside):
            e.goal("it is ours", boolv(e.ret))
            e.set_addr(c.out, 4, c.start + c.k)
        else:
            e.goal("result", z3.Or(boolv(e.ret) == False, z3.And(z3.ULT(c.k, c.size), c.inside)) if False else z3.Not(boolv(e.ret)))
    U.append(Unit("space.is_owned", A + "is_owned(cl_memory_cell*, unsigned int*)", pre_o, post_o))

    # decode_cell, undecode_cell
    def pre_d(c):
        c.this = space(c)
        c.addr, c.chip, c.ca = c.var("addr", 32), c.var("chip", 64), c.var("chipaddr", 32)
        return args(c, c.this, c.addr, c.chip, c.ca)

    def post_d(c, e):
        lg = e.log()
        if e.case(c.valid(c.addr)):
            d = [x for x in lg if x[0] == "decode"]
            e.goal("the cell is decoded once", len(d) == 1)
            if len(d) == 1:
                for nm, x, y in zip(("cell", "chip", "chip address"), d[0][1], (c.cellof(c.addr), c.chip, c.ca)):
                    e.goal("decode: " + nm, bv(x, y.size()) == y)
                after = lg[lg.index(d[0]) + 1:]
                e.goal("the result is the state after decoding", after != [] and after[-1][0] == "get_flag")
                if after and after[-1][0] == "get_flag":
                    e.goal("result", boolv(e.ret) == z3.Not(after[-1][2]))
            for x in lg:
                e.goal(f"{x[0]}: this cell", W(x[1][0]) == c.cellof(c.addr))
        else:
            e.calls()
            e.goal("result", z3.Not(boolv(e.ret)))

    def gf(c, st, this, fl):
        c.ex.side.append(("the flag asked for", list(st.pc), bv(fl, 32) == M.img.val["ND"], st))
        return z3.Bool(f"nd!{fresh('k', 1)}")
    U.append(Unit("space.decode_cell", A + "decode_cell(unsigned int, cl_memory_chip*, unsigned int)", pre_d, post_d,
                  [callee(r"cl_memory_cell::get_flag\(", "get_flag", gf, 1), callee(r"cl_memory_cell::un_decode\(", "un_decode", None, 0),
                   callee(r"cl_memory_cell::decode\(cl_memory_chip\*", "decode", None, 0)]))

    def simple(nm, fn, rx, extra, ret0=None, cell_args=None):
        def pre(c):
            c.this = space(c)
            c.addr = c.var("addr", 32)
            c.xa = [c.bvar(f"x{i}") if w == 1 else c.var(f"x{i}", w) for i, w in enumerate(extra)]
            return args(c, c.this, c.addr, *c.xa)

        def post(c, e):
            if e.case(c.valid(c.addr)):
                e.calls(("cell", c.cellof(c.addr), *cell_args(c)))
                if ret0 is not None:
                    e.goal("result", W(e.ret) == c.cellof(c.addr))
            else:
                e.calls()
                if ret0 is not None:
                    e.goal("result", W(e.ret) == 0)
        U.append(Unit(nm, fn, pre, post, [callee(rx, "cell", None, 0 if ret0 is None else 64)]))
    simple("space.undecode_cell", A + "undecode_cell(unsigned int)", r"cl_memory_cell::un_decode\(", [], cell_args=lambda c: ())
    simple("space.set_brk", A + "set_brk(unsigned int, cl_brk*)", r"cl_memory_cell::set_brk\(", [64], cell_args=lambda c: (None, c.xa[0]))
    simple("space.del_brk", A + "del_brk(unsigned int, cl_brk*)", r"cl_memory_cell::del_brk\(", [64], cell_args=lambda c: (c.xa[0],))
    simple("space.register_hw", A + "register_hw(unsigned int, cl_hw*, bool)", r"cl_memory_cell::add_hw\(", [64, 1], 0, cell_args=lambda c: (c.xa[0],))

    # every cell loses the hw
    def pre_u(c):
        c.this = space(c)
        c.x, c.hw = c.var("x", 32), c.var("hw", 64)
        c.st.ghost["hit"] = z3.BitVecVal(0, 8)
        return args(c, c.this, c.hw)

    def rem(c, st, this, hw):
        c.ex.side.append(("the hw asked for", list(st.pc), W(hw) == c.hw, st))
        st.ghost["hit"] = z3.If(W(this) == z3.ZeroExt(32, c.x) * c.sizeof("cl_memory_cell") + c.cella, z3.BitVecVal(1, 8), st.ghost["hit"])
        return 0

    def inv_u(c, st, n):
        return [("the cells up to here are done", st.ghost["hit"] == z3.If(z3.ULT(c.x, idx32(n)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))),
                ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.size)))]

    def post_u(c, e):
        e.goal("every cell", z3.Implies(z3.ULT(c.x, c.size), e.st.ghost["hit"] == 1))
    fn = A + "unregister_hw(cl_hw*)"
    U.append(Unit("space.unregister_hw", fn, pre_u, post_u, [callee(r"cl_memory_cell::remove_hw\(", "remove_hw", rem, 0)], {fn: Loop(inv_u, mod_r)}))

    # addresses
    def pre_v(c):
        c.this = space(c)
        c.addr = c.var("addr", 32)
        return args(c, c.this, c.addr)

    def post_v(c, e):
        e.goal("result", boolv(e.ret) == c.valid(c.addr))
    U.append(Unit("memory.valid_address", "cl_memory::valid_address(unsigned int)", pre_v, post_v))

    def pre_va(c):
        pre_v(c)
        # a space that starts at 0, or an address not far below its start
        c.assume(z3.ULT(c.addr, 1 << 31))
        c.keep_small(z3.ULT(c.addr, 64))
        return c.args

    def post_va(c, e):
        r = bv(e.ret, 32)
        e.goal("the result is an address of the memory", c.valid(r))
        if e.case(z3.UGE(c.addr, c.start)):
            e.goal("the same place", r == z3.If(c.valid(c.addr), c.addr, c.start + z3.URem(c.addr - c.start, c.size)))
        else:
            e.goal("whole sizes were added", r == c.addr + e.st.ghost["k"] * c.size)

    def inv_va(c, st, n):
        a = st.ghost["phis"][0]
        return [("whole sizes were added", a == c.addr + idx32(n) * c.size),
                ("not more than needed", z3.Or(a == c.addr, z3.And(z3.ULT(a, c.start + c.size), z3.UGT(a, c.addr)))),
                ("only when needed", z3.Implies(z3.UGE(c.addr, c.start), a == c.addr))]

    def mod_va(c, st, n):
        st.ghost["k"] = idx32(n)
    fn = "cl_memory::validate_address(unsigned int)"
    U.append(Unit("memory.validate_address", fn, pre_va, post_va, [], {fn: Loop(inv_va, mod_va)}))

    def pre_i(c):
        pre_v(c)
        c.v = c.var("val", 32)
        c.assume(z3.ULT(c.v, 1 << 29), c.valid(c.addr))
        return args(c, c.this, c.addr, c.v)

    def post_i(one):
        def post(c, e):
            r = bv(e.ret, 32)
            v = 1 if one else c.v
            e.goal("result", r - c.start == z3.URem(c.addr - c.start + v, c.size))
        return post

    def pre_1(c):
        pre_v(c)
        c.assume(c.valid(c.addr))
        return c.args
    U.append(Unit("memory.inc_address(val)", "cl_memory::inc_address(unsigned int, int)", pre_i, post_i(False)))
    U.append(Unit("memory.inc_address", "cl_memory::inc_address(unsigned int)", pre_1, post_i(True)))
    return U


def chips(M):
    U = []
    W = lambda x: bv(x, 64)

    def chip(c, cls, null=False):
        w = CHIPS[cls]
        c.size = c.var("size", 32)
        c.assume(z3.ULT(c.size, 1 << 28), z3.UGT(c.size, 0))
        c.keep_small(z3.ULT(c.size, 16))
        c.A = c.array("slots", w)
        c.base = c.region("slots", w // 8, z3.ZeroExt(32, c.size), {0: (w // 8, c.A)})
        c.width = c.var("width", 32)
        c.assume(z3.ULE(c.width, w), z3.UGT(c.width, {8: 0, 16: 8, 32: 16}[w]))
        asz = c.var("alloc_size", 32)
        c.assume(z3.UGE(z3.ZeroExt(32, asz), z3.ZeroExt(32, c.size) * (w // 8)), z3.ULT(asz, 1 << 31))
        c.this = c.obj("chip", cls, size=c.size, array=0 if null else c.base, bwidth=w // 8, width=c.width, alloc_size=asz)
        c.addr = c.var("addr", 32)
        c.inside = z3.ULT(c.addr, c.size)
        return c.this

    for cls, w in CHIPS.items():
        for null in (False, True):
            nn = " without memory" if null else ""

            def rd(fn, cls=cls, null=null, w=w, nn=nn, nm=None):
                def pre(c):
                    chip(c, cls, null)
                    return args(c, c.this, c.addr, *([c.var("skip", 32)] if "hw_cath" in fn else []))

                def post(c, e):
                    e.ret_is(0 if null else z3.If(c.inside, z(e.old(c.A, c.addr)) & c.vars["chip.data_mask"], z3.BitVecVal(0, 32)))
                U.append(Unit(f"{cls}.{nm or fn.split('::')[1]}{nn}", fn, pre, post))
            rd(f"{cls}::d(unsigned int)")
            for f in ("read(unsigned int)", "get(unsigned int)", "read(unsigned int, hw_cath)"):
                if not null:
                    rd("cl_memory_chip::" + f)

            def wr(fn, cls=cls, null=null, w=w, nn=nn, ret=False):
                def pre(c):
                    chip(c, cls, null)
                    return args(c, c.this, c.addr, c.var("val", 32))

                def post(c, e):
                    v = z3.Extract(w - 1, 0, c.vars["val"] & c.vars["chip.data_mask"])
                    e.arr(c.A, lambda k: e.old(c.A, k) if null else z3.If(z3.And(k == c.addr, c.inside), v, e.old(c.A, k)))
                    if ret:
                        e.ret_is(c.vars["val"])
                U.append(Unit(f"{cls}.{fn.split('::')[1]}{nn}", fn, pre, post))
            wr(f"{cls}::d(unsigned int, unsigned int)")
            if not null:
                wr("cl_memory_chip::write(unsigned int, unsigned int)", ret=True)
                wr("cl_memory_chip::set(unsigned int, unsigned int)")

            def pre_s(c, cls=cls, null=null):
                chip(c, cls, null)
                return args(c, c.this, c.addr)

            def post_s(c, e, w=w, null=null):
                e.goal("the slot of this address", W(e.ret) == (0 if null else z3.If(c.inside, c.base + z3.ZeroExt(32, c.addr) * (w // 8), z3.BitVecVal(0, 64))))
            U.append(Unit(f"{cls}.get_slot{nn}", "cl_memory_chip::get_slot(unsigned int)", pre_s, post_s))

        def pre_i(c, cls=cls, w=w):
            chip(c, cls)
            c.assume(c.inside)
            c.out = c.obj("out", nbytes=8)
            return args(c, c.this, c.base + z3.ZeroExt(32, c.addr) * (w // 8), c.out)

        def post_i(c, e):
            e.goal("a slot of this chip", boolv(e.ret))
            e.set_addr(c.out, 4, c.addr)
        U.append(Unit(f"{cls}.is_slot of a slot", "cl_memory_chip::is_slot(void*, unsigned int*)", pre_i, post_i))

        def pre_o(c, cls=cls, w=w):
            chip(c, cls)
            c.out = c.obj("out", nbytes=8)
            p = c.var("p", 64)
            c.assume(z3.Or(z3.ULT(p, c.base), z3.UGE(p, c.base + z3.ZeroExt(32, c.vars["alloc_size"]))))
            return args(c, c.this, p, c.out)

        def post_o(c, e):
            e.goal("no slot of this chip", z3.Not(boolv(e.ret)))
        U.append(Unit(f"{cls}.is_slot elsewhere", "cl_memory_chip::is_slot(void*, unsigned int*)", pre_o, post_o))
    return U


def lists(M):
    """What a cell is connected to: its slot, its flags, its operators."""
    U = []
    W = lambda x: bv(x, 64)
    V = M.img.val
    ND, FB = V["ND"], V["FB"]
    C = "cl_memory_cell::"

    def pre0(*extra):
        def pre(c):
            c.this = c.obj("cell", "cl_cell8", ops=0)
            c.xa = [c.bvar(f"x{i}") if w == 1 else c.var(f"x{i}", w) for i, w in enumerate(extra)]
            return args(c, c.this, *c.xa)
        return pre

    # -------- width, flags, slot
    def pre_w(c):
        pre0(8)(c)
        c.assume(z3.UGE(c.xa[0], 1), z3.ULE(c.xa[0], 32))
        return c.args

    def post_w(c, e):
        e.set("cell", "width", c.xa[0])
        e.set("cell", "mask", z3.LShR(z3.BitVecVal(0xffffffff, 32), 32 - z(c.xa[0])))
    U.append(Unit("cell.set_width", C + "set_width(unsigned char)", pre_w, post_w))
    U.append(Unit("cell.get_flags", C + "get_flags()", pre0(), lambda c, e: e.ret_is(c.vars["cell.flags"], 8)))
    U.append(Unit("cell.get_flag", C + "get_flag(cell_flag)", pre0(32),
                  lambda c, e: e.goal("result", boolv(e.ret) == ((z(c.vars["cell.flags"]) & c.xa[0]) != 0))))
    U.append(Unit("cell.set_flags", C + "set_flags(unsigned char)", pre0(8), lambda c, e: e.set("cell", "flags", c.xa[0])))
    U.append(Unit("cell.set_flag", C + "set_flag(cell_flag, bool)", pre0(32, 1),
                  lambda c, e: e.set("cell", "flags", z3.If(c.xa[1], c.vars["cell.flags"] | z3.Extract(7, 0, c.xa[0]), c.vars["cell.flags"] & ~z3.Extract(7, 0, c.xa[0])))))
    own = lambda c: M.img.addr.get("def_data", M.img.sym.get("def_data"))

    def connected(c, e, slot, mask=None):
        """The cell shows this slot; without one it is not decoded and has a place of its own."""
        f = c.vars["cell.flags"]
        e.set("cell", "data", z3.If(slot == 0, z3.BitVecVal(own(c), 64), slot))
        e.set("cell", "flags", z3.If(slot == 0, f | ND, f & (255 - ND)))
        if mask is not None:
            e.set("cell", "mask", mask)

    def post_un(c, e):
        f = c.vars["cell.flags"]
        e.set("cell", "data", z3.If(f & ND == 0, z3.BitVecVal(own(c), 64), c.vars["cell.data"]))
        e.set("cell", "flags", f | ND)
    U.append(Unit("cell.un_decode", C + "un_decode()", pre0(), post_un))
    U.append(Unit("cell.decode(slot)", C + "decode(void*)", pre0(64), lambda c, e: connected(c, e, c.xa[0])))
    U.append(Unit("cell.decode(slot, mask)", C + "decode(void*, unsigned int)", pre0(64, 32), lambda c, e: connected(c, e, c.xa[0], c.xa[1])))

    def pre_dc(c):
        pre0()(c)
        chip = c.obj("chip", "cl_chip8")
        c.chip, c.ca = chip, c.var("addr", 32)
        return args(c, c.this, chip, c.ca)

    def post_dc(c, e):
        e.calls(("get_slot", c.chip, c.ca))
        if e.log():
            connected(c, e, e.log()[0][2])
    U.append(Unit("cell.decode(chip)", C + "decode(cl_memory_chip*, unsigned int)", pre_dc, post_dc,
                  [callee(r"cl_memory_chip::get_slot\(", "get_slot", None, 64)]))
    U.append(Unit("cell.init", C + "init()", pre0(), lambda c, e: e.set("cell", "data", own(c))))

    # -------- single operators
    def op(c, cls, hwnull=False, cellnull=False, hwflds=True):
        c.hw = 0 if hwnull else c.obj("hw", "cl_hw")
        c.cell = 0 if cellnull else c.obj("cell", "cl_cell8", ops=0)
        k = dict(cell=c.cell)
        if cls == "cl_hw_operator":
            k["hw"] = c.hw
        c.this = c.obj("op", cls, **k)
        return c.this

    def plain(cls, fn, kind, hwnull, cellnull):
        skip = "hw_cath" in fn
        wr = kind == "write"

        def pre(c):
            op(c, cls, hwnull, cellnull)
            c.act0 = c.vars.get("hw.active")
            return args(c, c.this, *([c.var("val", 32)] if wr else []), *([c.var("skip", 32)] if skip else []))

        def hwread(c, st, this, cell):
            c.ex.side.append(("the hw is told the cell", list(st.pc), z3.And(W(this) == c.hw, W(cell) == c.cell), st))
            c.ex.side.append(("the hw is active meanwhile", list(st.pc), bv(c.fld("hw", "active", st), 8) == 1, st))
            return fresh("hwread", 32)

        def hwwrite(c, st, this, cell, p):
            c.ex.side.append(("the hw is told the cell", list(st.pc), z3.And(W(this) == c.hw, W(cell) == c.cell), st))
            c.ex.side.append(("the hw is active meanwhile", list(st.pc), bv(c.fld("hw", "active", st), 8) == 1, st))
            c.ex.side.append(("the hw gets the value", list(st.pc), bv(c.ex.ld(st, p, 4), 32) == c.vars["val"], st))
            r = fresh("hwwrite", 32)
            c.ex._put(st, p, 4, r)
            st.ghost["changed"] = r
            return 0

        def post(c, e):
            names = [x[0] for x in e.log()]
            if wr:
                if not hwnull:
                    e.goal("the hw is told once", names == ["hw.write"])
                    e.ret_is(e.st.ghost.get("changed", 0))
                else:
                    e.calls()
                    e.ret_is(c.vars["val"])
                return
            takes = not hwnull and (not skip or e.case(c.fld("hw", "category") != c.vars["skip"]))
            if takes:
                e.goal("the hw is asked once", names == ["hw.read"])
                if names == ["hw.read"]:
                    e.ret_is(e.log()[0][2])
            elif cellnull:
                e.calls()
                e.ret_is(0)
            else:
                e.calls(("get", c.cell))
                if names == ["get"]:
                    e.ret_is(e.log()[0][2])
        U.append(Unit(f"{fn}{' no hw' if hwnull else ''}{' no cell' if cellnull else ''}", fn, pre, post,
                      [callee(r"cl_memory_cell::get\(", "get", None, 32), callee(r"cl_hw::read\(", "hw.read", hwread, 32), callee(r"cl_hw::write\(", "hw.write", hwwrite, 0)]))
    for hwnull, cellnull in ((0, 0), (1, 0), (1, 1)):
        plain("cl_hw_operator", "cl_hw_operator::read()", "read", hwnull, cellnull)
        plain("cl_hw_operator", "cl_hw_operator::read(hw_cath)", "read", hwnull, cellnull)
        plain("cl_hw_operator", "cl_hw_operator::write(unsigned int)", "write", hwnull, cellnull)
    for cellnull in (0, 1):
        plain("cl_memory_operator", "cl_memory_operator::read()", "read", 1, cellnull)
        plain("cl_memory_operator", "cl_memory_operator::write(unsigned int)", "write", 1, cellnull)

    def pre_b(c):
        c.cell = c.obj("cell", "cl_cell8", ops=0)
        c.bk = c.obj("banker", "cl_banker")
        c.this = c.obj("op", "cl_bank_switcher_operator", cell=c.cell, banker=c.bk)
        return args(c, c.this, c.var("val", 32))

    def post_b(c, e):
        e.calls(("set", c.cell, c.vars["val"]), ("activate", c.bk, None), ("get", c.cell))
        if len(e.log()) == 3:
            e.ret_is(e.log()[2][2])
    U.append(Unit("cl_bank_switcher_operator.write", "cl_bank_switcher_operator::write(unsigned int)", pre_b, post_b,
                  [callee(r"cl_memory_cell::set\(", "set", None, 32), callee(r"cl_memory_cell::get\(", "get", None, 32),
                   callee(r"cl_banker::activate\(", "activate", None, 1)]))

    # -------- lists of operators
    def oplist(c, null=False):
        n = c.n = z3.BitVecVal(0, 32) if null else c.var("nops", 32)
        c.A = c.array("ops", 64)
        c.assume(z3.ULT(n, 1 << 20))
        c.keep_small(z3.ULT(n, 4))
        c.x = c.var("x", 32)
        c.pool = c.region("operator", 64, z3.BitVecVal(1 << 30, 64), {0: (8, c.vtable("cl_memory_operator"))})
        w = z3.Function("which", z3.BitVecSort(32), z3.BitVecSort(20))
        ent = lambda k: c.pool + z3.Concat(z3.BitVecVal(0, 38), w(k), z3.BitVecVal(0, 6))
        c.which = lambda k: z3.ZeroExt(12, w(k))
        c.ent = ent
        c.st.base["ops"] = lambda k: z3.If(bv(k, 32) == n, z3.BitVecVal(0, 64), ent(bv(k, 32)))
        c.lst = 0 if null else c.region("ops", 8, z3.ZeroExt(32, n) + 1, {0: (8, c.A)})
        c.this = c.obj("cell", "cl_cell8", ops=c.lst)
        c.at = lambda k: c.st.mem(c.A, k)
        return c.this

    def bound(c, st, n):
        return ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))

    for null in (False, True):
        nn = " (no list)" if null else ""
        fn = C + "nuof_ops()"
        U.append(Unit("cell.nuof_ops" + nn, fn, lambda c, null=null: args(c, oplist(c, null)), lambda c, e: e.ret_is(c.n), [], {fn: Loop(lambda c, st, n: [bound(c, st, n)])}))

        # append: the old ones stay in their places, the new one comes after them
        def pre_a(c, null=null):
            oplist(c, null)
            c.op = c.var("newop", 64)
            c.assume(c.op != 0, z3.ULT(c.op, 1 << 47))
            return args(c, c.this, c.op)

        def alloc(copy):
            def f(c, st, *a):
                nb = bv(a[-1], 64)
                as_ = c.array("new", 64)
                base = c.region("new", 8, z3.LShR(nb, 3), {0: (8, as_)})
                g = z3.Function("newmem", z3.BitVecSort(32), z3.BitVecSort(64))
                old = dict(st.arr), dict(st.base)
                if copy:
                    s0 = st.fork()
                    s0.base = dict(st.base)
                    st.base["new"] = lambda k: z3.If(z3.ULE(bv(k, 32), c.n), s0.mem(c.A, k), g(bv(k, 32)))
                else:
                    st.base["new"] = lambda k: g(bv(k, 32))
                c.new, c.newarr = base, as_
                c.ex.rgns = c.rg
                return base
            return f

        def result(c, e, want, n1):
            """The cell's list is now what `want` says, n1 entries and a NULL."""
            e.any("cell", "ops")
            e.loose_arr("new")
            p = W(e.fld("cell", "ops"))
            has_new = hasattr(c, "new")
            cur = lambda k: z3.If(p == c.new, e.st.mem(c.newarr, k), e.st.mem(c.A, k)) if has_new else e.st.mem(c.A, k)
            e.goal("the list of the cell", z3.Or(p == (c.new if has_new else c.lst), p == c.lst) if not (isinstance(c.lst, int) and c.lst == 0 and has_new) else p == c.new)
            e.goal("the operators", z3.Implies(z3.ULT(c.x, n1), cur(c.x) == want(c.x)))
            e.goal("the end of the list", cur(n1) == 0)

        def post_a(c, e):
            result(c, e, lambda k: z3.If(k == c.n, c.op, c.at(k)), c.n + 1)
        fn = C + "append_operator(cl_memory_operator*)"
        cs = [callee(r"malloc", "malloc", alloc(False), 64), callee(r"realloc", "realloc", alloc(True), 64), callee(r"free", "free", None, 0),
              callee(r"cl_memory_cell::nuof_ops\(", "nuof_ops", lambda c, st, *a: c.n, 32)]

        def inv_a(c, st, n):
            return [bound(c, st, n)]
        U.append(Unit("cell.append_operator" + nn, fn, pre_a, post_a, cs, {fn: Loop(inv_a)}))

        def post_p(c, e):
            result(c, e, lambda k: z3.If(k == 0, c.op, c.at(k - 1)), c.n + 1)

        def inv_p(c, st, n):
            k = idx32(n)
            return [bound(c, st, n), ("the new one is first", st.mem(c.newarr, 0) == c.op),
                    ("the old ones follow", z3.Implies(z3.And(z3.UGT(c.x, 0), z3.ULE(c.x, k)), st.mem(c.newarr, c.x) == c.at(c.x - 1)))]

        def mod_p(c, st, n):
            c.havoc_arr(st, c.newarr)
        fn = C + "prepend_operator(cl_memory_operator*)"
        U.append(Unit("cell.prepend_operator" + nn, fn, pre_a, post_p, cs, {fn: Loop(inv_p, mod_p)}))
    # remove, delete: exactly the matching ones go, the others keep their order
    for kind, fn in (("op", C + "remove_operator(cl_memory_operator*)"), ("brk", C + "del_operator(cl_brk*)"), ("hw", C + "del_operator(cl_hw*)")):
        for null in (False, True):
            def pre_f(c, null=null, kind=kind):
                oplist(c, null)
                c.what = c.var("what", 64)
                B = z3.BitVecSort(32)
                c.cnt = z3.Function("kept_before", B, B)
                match = z3.Function("match", B, z3.BoolSort())
                c.match = (lambda k: c.ent(k) == c.what) if kind == "op" else match
                c.assume(c.cnt(z3.BitVecVal(0, 32)) == 0)
                if c.small_mode:
                    for i in range(4):
                        c.assume(c.cnt(z3.BitVecVal(i + 1, 32)) == c.cnt(z3.BitVecVal(i, 32)) + z3.If(c.match(z3.BitVecVal(i, 32)), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
                if kind != "op":
                    # an operator is in the list once
                    y = c.var("y", 32)
                    c.st.ghost["gone"] = z3.BitVecVal(0, 64)
                c.st.ghost["asked"] = z3.BitVecVal(0, 32)
                return args(c, c.this, c.what)

            def matcher(c, st, this, what):
                k = st.ghost["asked"]
                c.ex.side.append(("every operator is asked, in order", list(st.pc), z3.And(W(this) == c.ent(k), W(what) == c.what), st))
                r = c.match(k)
                st.ghost["asked"] = z3.simplify(k + 1)
                st.ghost["gone"] = z3.If(r, c.ent(k), st.ghost["gone"])
                return r

            def inv_f(c, st, n, kind=kind):
                k = idx32(n)
                r = [bound(c, st, n), ("no more are kept than there are", z3.ULE(c.cnt(k), k)),
                     ("the kept ones are in place", z3.Implies(z3.And(z3.ULT(c.x, k), z3.Not(c.match(c.x))),
                                                               z3.And(z3.ULT(c.cnt(c.x), c.cnt(k)), st.mem(c.A, c.cnt(c.x)) == c.at(c.x)))),
                     ("the rest is untouched", z3.Implies(z3.UGE(c.x, k), st.mem(c.A, c.x) == c.at(c.x)))]
                if kind != "op":
                    r += [("one question per operator", st.ghost["asked"] == k)]
                return r

            def mod_f(c, st, n, kind=kind):
                g = c.havoc_arr(st, c.A)
                k = idx32(n)
                st.base["ops"] = lambda i: z3.If(z3.UGE(bv(i, 32), k), c.at(bv(i, 32)), g(bv(i, 32)))
                if kind != "op":
                    st.ghost["asked"], st.ghost["gone"] = fresh("asked", 32), fresh("gone", 64)
                    w = z3.ZeroExt(12, fresh("w", 20))
                    ex_i = fresh("some", 32)
                    st.pc.append(z3.Or(st.ghost["gone"] == 0, st.ghost["gone"] == c.ent(ex_i)))

            def defs_f(c, st, n):
                k = idx32(n)
                return [c.cnt(k + 1) == c.cnt(k) + z3.If(c.match(k), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)),
                        z3.Or(k != c.x, True)]

            def post_f(c, e, kind=kind, null=null):
                if null:
                    e.calls()
                    return
                m = c.cnt(c.n)
                free = [x for x in e.log() if x[0] == "free"]
                gone = [x for x in e.log() if x[0] == "delete"]
                e.loose_arr("ops")
                if kind != "op":
                    e.goal("every operator is asked", e.st.ghost["asked"] == c.n)
                    last = e.st.ghost["gone"]
                    if e.case(last == 0):
                        e.goal("nothing is deleted", not gone)
                    else:
                        e.goal("the operator is deleted", len(gone) == 1)
                        if len(gone) == 1:
                            e.goal("the one that matched", W(gone[0][1][0]) == last)
                if e.case(m == 0):
                    e.goal("the empty list is given back", len(free) == 1)
                    e.set("cell", "ops", 0)
                else:
                    e.goal("the list is kept", len(free) == 0)
                    e.goal("the others are kept in order", z3.Implies(z3.And(z3.ULT(c.x, c.n), z3.Not(c.match(c.x))), e.st.mem(c.A, c.cnt(c.x)) == c.at(c.x)))
                    e.goal("the end of the list", e.st.mem(c.A, m) == 0)
            lp = Loop(inv_f, mod_f, track=(lambda c, st, n: c.cnt(idx32(n)), *(() if kind == "op" else ("gone",))), defs=defs_f)
            U.append(Unit(f"{fn}{' no list' if null else ''}", fn, pre_f, post_f,
                          [callee(r"free", "free", None, 0), callee(r"cl_memory_operator::match\(", "match", matcher, 1),
                           callee(r"cl_memory_operator::~cl_memory_operator", "delete", None, 0)], {fn: lp}))
    return U


def units(M):
    V = M.img.val
    RO, ND, FB = V["RO"], V["ND"], V["FB"]
    U = []

    # ---------------------------------------------------------------- cells
    for cls in CELLS:
        if cls == "cl_dummy_cell":
            continue
        w = CELLS[cls]

        def rd(fn, noops, cls=cls):
            def pre(c):
                ops = 0
                if noops == "empty list":
                    ops = c.obj("oplist", nbytes=8)
                    c.st.ov[ops] = (8, 0)
                this, sa, s = cell(c, cls, ops=ops)
                c.s, c.sa = s, sa
                return args(c, this, *([z3.BitVecVal(0, 32)] if "hw_cath" in fn else []))

            def post(c, e):
                e.ret_is(seen(cls, c.s, c.vars["cell.mask"]))
                e.calls()
            U.append(Unit(f"{cls}.{fn.split('::')[1]} {noops}", fn, pre, post))
        rd("cl_memory_cell::get()", "")
        rd("cl_memory_cell::read()", "no operator")
        rd("cl_memory_cell::read()", "empty list")
        rd("cl_memory_cell::read(hw_cath)", "no operator")

        def wr(fn, respects_ro, cls=cls):
            def pre(c):
                this, sa, s = cell(c, cls)
                c.s, c.sa = s, sa
                return args(c, this, c.var("val", 32))

            def post(c, e):
                v = c.vars
                new = stored(cls, c.s, v["val"], v["cell.mask"], v["cell.width"])
                if respects_ro:
                    new = z3.If(v["cell.flags"] & RO != 0, c.s, new)
                e.set_addr(c.sa, CELLS[cls] // 8, new)
                e.ret_is(seen(cls, new, v["cell.mask"]))
                e.calls()
            U.append(Unit(f"{cls}.{fn.split('::')[1]}", fn, pre, post))
        wr("cl_memory_cell::write(unsigned int)", True)
        wr("cl_memory_cell::set(unsigned int)", True)
        wr("cl_memory_cell::download(unsigned int)", False)

    # operators: all of them, in order, each fed with the value of the one before
    def ops_pre(write, skip=False):
        def pre(c):
            n = c.var("nops", 32)
            c.assume(z3.UGT(n, 0), z3.ULT(n, 1 << 20))
            c.keep_small(z3.ULT(n, 4))
            opv = c.vtable("cl_memory_operator")
            oa = c.array("op", 64)
            pool = c.region("operator", 64, z3.BitVecVal(1 << 30, 64), {0: (8, opv)})
            lst = c.region("oplist", 8, z3.ZeroExt(32, n) + 1, {0: (8, lambda st, i: z3.If(bv(i, 32) == n, z3.BitVecVal(0, 64), pool + z3.ZeroExt(32, c.which(bv(i, 32))) * 64))})
            # entry i is the operator number which(i)
            f = z3.Function("which", z3.BitVecSort(32), z3.BitVecSort(20))
            c.which = lambda i: z3.ZeroExt(12, f(i))
            c.pool, c.n = pool, n
            del c.arrs["op"]
            this, sa, s = cell(c, "cl_cell8", ops=lst)
            c.s, c.sa, c.this = s, sa, this
            c.result = z3.Function("result", z3.BitVecSort(32), z3.BitVecSort(32))
            c.st.ghost["ncalls"] = z3.BitVecVal(0, 32)
            c.st.ghost["cur"] = c.var("val", 32) if write else z3.BitVecVal(0, 32)
            return args(c, this, *([c.vars["val"]] if write else []), *([z3.BitVecVal(3, 32)] if skip else []))
        return pre

    def op_contract(write):
        def f(c, st, *a):
            n = st.ghost["ncalls"]
            c.ex.side.append(("the operators are called in the order of the list", list(st.pc),
                              bv(a[0], 64) == c.pool + z3.ZeroExt(32, c.which(n)) * 64, st))
            if write:
                c.ex.side.append(("each operator gets what the one before returned", list(st.pc), bv(a[1], 32) == st.ghost["cur"], st))
            r = c.result(n)
            st.ghost["ncalls"] = z3.simplify(n + 1)
            st.ghost["cur"] = r
            return r
        return f

    def ops_loop(write):
        def inv(c, st, n):
            k = z3.Extract(31, 0, n)
            r = [("one call per round", st.ghost["ncalls"] == k),
                 ("the value is that of the last operator", st.ghost["cur"] == z3.If(k == 0, c.st.ghost["cur"], c.result(k - 1))),
                 ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))]
            return r

        def mod(c, st, n):
            st.ghost["ncalls"] = fresh("ncalls", 32)
            st.ghost["cur"] = fresh("cur", 32)
        return Loop(inv, mod, track=("cur",))
    for fn, write, rx in (("cl_memory_cell::read()", False, r"cl_memory_operator::read\(\)"),
                          ("cl_memory_cell::read(hw_cath)", False, r"cl_memory_operator::read\(hw_cath\)"),
                          ("cl_memory_cell::write(unsigned int)", True, r"cl_memory_operator::write\(")):
        def post(c, e, write=write):
            e.goal("every operator is called once", e.st.ghost["ncalls"] == c.n)
            last = c.result(c.n - 1)
            if not write:
                e.ret_is(last)
            else:
                v = c.vars
                new = z3.If(v["cell.flags"] & RO != 0, c.s, stored("cl_cell8", c.s, last, v["cell.mask"], v["cell.width"]))
                e.set_addr(c.sa, 1, new)
                e.ret_is(z(new))
        U.append(Unit(f"{fn.split('::')[1]} with operators", fn, ops_pre(write, "hw_cath" in fn), post,
                      [callee(rx, "operator", op_contract(write))], {fn: ops_loop(write)}))
    U += spaces(M) + chips(M) + lists(M)
    return U


def run(rep):
    from .. import fn
    fn.run(rep, machine, units)
