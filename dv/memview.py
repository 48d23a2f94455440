"""Contracts of the memory layer over ghost arrays.

An address space `as` of the constructed machine is abstracted to an array M_as of elements of the
cell width. The mapping (cell -> data slot, mask, flags) is read off the constructed object graph on
every run and checked for the shape the abstraction needs: every cell decoded to its own slot, full
mask, no operator. The contracts below are what callers are verified against; that the bodies of
cl_address_space and cl_memory_cell meet them is the subject of the memory property (C01).
"""
import z3

from .sym import AS, CellPtr, NOTMINE, Unsupported, Crash, bv, norm


def add_as(ex, name, asaddr, bits=None, ignore_ops=False, lo=None, hi=None):
    """Abstract the address space object at `asaddr`. bits: index map of a bit/mirror space."""
    im = ex.img
    v = im.val
    R = im.read
    cella = R(asaddr + v["off.as.cella"], 8)
    start = R(asaddr + v["off.as.start"], 4)
    size = R(asaddr + v["off.as.size"], 4)
    if not cella or not size:
        raise Unsupported(f"address space {name} is not there")
    cs = v["size.cell"]
    a = AS(name, asaddr, start, size, 0, R(cella, 8))
    a.cells = (cella, size)
    a.cs = cs
    a.dummy = R(asaddr + v["off.as.dummy"], 8)
    a.undecoded = set()
    a.hw = set()
    a.ro = set()
    a.bits = bits
    widths, vptrs = {}, {}
    seen = {}
    for i in range(size):
        c = cella + cs * i
        data, mask, ops = R(c + v["off.cell.data"], 8), R(c + v["off.cell.mask"], 4), R(c + v["off.cell.ops"], 8)
        width, flags = R(c + v["off.cell.width"], 1), R(c + v["off.cell.flags"], 1)
        widths[width] = widths.get(width, 0) + 1
        vp = R(c, 8)
        vptrs[vp] = vptrs.get(vp, 0) + 1
        if ops:
            a.hw.add(i + start)
        if flags & 0x10:         # CELL_READ_ONLY
            a.ro.add(i + start)
        if bits is not None:
            continue
        w = 8 if width <= 8 else 16 if width <= 16 else 32
        # slots inside the cell object itself or shared ones are not memory
        if data in seen or im.seg(data, w // 8) is None or data == 0:
            a.undecoded.add(i + start)
            continue
        seen[data] = i + start
        if mask != (1 << width) - 1:
            raise Unsupported(f"{name}[{i}] has mask {mask:#x} of width {width}")
    a.width = max(widths, key=widths.get)
    a.w = 8 if a.width <= 8 else 16 if a.width <= 16 else 32
    a.vptr = max(vptrs, key=vptrs.get)
    a.fn = z3.Function("M_" + name, z3.BitVecSort(32), z3.BitVecSort(a.w))
    if bits is None:
        for d, i in seen.items():
            if d in ex.slot_of:
                raise Unsupported(f"{name}[{i}] shares its storage with {ex.slot_of[d][0].name}")
            ex.slot_of[d] = (a, i)
    else:
        # the map is checked against the constructed cells for every address
        for i in range(size):
            c = cella + cs * i
            data, mask = R(c + v["off.cell.data"], 8), R(c + v["off.cell.mask"], 4)
            prim, idx, bit = bits(i + start)
            if ex.slot_of.get(data) != (prim, idx) or mask != 1 << bit:
                raise Unsupported(f"{name}[{i}] is not wired to {prim.name}[{idx:#x}].{bit}")
    ex.ases[asaddr] = a
    return a


def add_alias(ex, name, asaddr, amap, size):
    """An address space whose cells are views of other storage, chosen by the machine state.
    amap(st, idx) -> (prim, idx) or [(cond, prim, idx, bit)]."""
    im = ex.img
    v = im.val
    start = im.read(asaddr + v["off.as.start"], 4)
    a = AS(name, asaddr, start, size, 0, 0)
    a.cells = (im.read(asaddr + v["off.as.cella"], 8), size)
    a.cs = v["size.cell"]
    a.dummy = im.read(asaddr + v["off.as.dummy"], 8)
    a.undecoded, a.hw, a.ro = set(), set(), set()
    a.bits, a.alias = None, amap
    a.width = a.w = 8
    a.vptr = im.read(a.cells[0], 8)
    ex.ases[asaddr] = a
    return a


def in_range(ex, st, a, addr):
    idx = bv(addr, 32) - a.start if a.start else bv(addr, 32)
    if isinstance(addr, int):
        return a.start <= addr < a.start + a.size
    c = z3.ULT(idx, z3.BitVecVal(a.size, 32)) if a.size < (1 << 32) else True
    if a.start:
        c = z3.And(c, z3.UGE(bv(addr, 32), z3.BitVecVal(a.start, 32)))
    return c


def elem(ex, st, a, idx):
    """Value of a cell as a 32-bit t_mem."""
    if a.alias:
        t = a.alias(st, idx)
        if isinstance(t, tuple):
            return elem(ex, st, t[0], t[1])
        r = z3.BitVecVal(0, 32)
        for c, prim, i, b in t:
            i = norm(i)
            x = z3.ZeroExt(31, z3.Extract(0, 0, z3.LShR(bv(st.mem(prim, i), prim.w), ext_(b, prim.w))))
            r = z3.If(c, x, r)
        return norm(r)
    if a.bits is not None:
        prim, i, bit = a.bits(idx)
        v = bv(st.mem(prim, i), prim.w)
        b = bv(bit, prim.w)
        return norm(z3.ZeroExt(31, z3.Extract(0, 0, z3.LShR(v, b))))
    v = bv(st.mem(a, idx), a.w)
    if a.width < a.w:
        v = v & ((1 << a.width) - 1)
    return norm(z3.ZeroExt(32 - a.w, v) if a.w < 32 else v)


def ext_(b, w):
    if isinstance(b, int):
        return z3.BitVecVal(b, w)
    n = b.size()
    return b if n == w else z3.Extract(w - 1, 0, b) if n > w else z3.ZeroExt(w - n, b)


def set_elem(ex, st, a, idx, val):
    if a.alias:
        t = a.alias(st, idx)
        if isinstance(t, tuple):
            return set_elem(ex, st, t[0], norm(t[1]), val)
        for c, prim, i, b in t:
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            v = bv(st.mem(prim, norm(i)), prim.w)
            m = z3.BitVecVal(1, prim.w) << ext_(b, prim.w)
            st.setmem(prim, norm(i), norm(z3.If(bv(val, 32) != 0, v | m, v & ~m)), True if z3.is_true(c) else c)
        return
    if a.bits is not None:
        prim, i, bit = a.bits(idx)
        v = bv(st.mem(prim, i), prim.w)
        m = z3.BitVecVal(1, prim.w) << bv(bit, prim.w)
        on = bv(val, 32) != 0
        st.setmem(prim, i, norm(z3.If(on, v | m, v & ~m)))
        return
    v = z3.Extract(a.w - 1, 0, bv(val, 32)) if a.w < 32 else bv(val, 32)
    if a.width < a.w:
        v = v & ((1 << a.width) - 1)
    st.setmem(a, idx, norm(v))


def install(ex):
    """The contracts of address spaces and of the cells they hand out."""
    def the_as(x):
        x = norm(x) if not isinstance(x, (CellPtr,)) and hasattr(x, "sort") or isinstance(x, int) else x
        return ex.ases.get(x) if isinstance(x, int) else None

    def ranged(st, a, addr, inside, outside):
        out = []
        for s, b in ex.split(st, in_range(ex, st, a, addr)) if not isinstance(addr, int) else \
                [(st, in_range(ex, st, a, addr))]:
            out.append((s, inside(s) if b else outside(s)))
        return out

    def addr_of(x):
        return norm(x)

    def touch(st, a, addr):
        if a.undecoded:
            if isinstance(addr, int):
                if addr in a.undecoded:
                    st.ghost["undecoded"] = 1
        return None

    def as_read(ex, st, args):
        a = the_as(args[0])
        if a is None:
            return NOTMINE
        ad = addr_of(args[1])

        def ins(s):
            touch(s, a, ad)
            return elem(ex, s, a, ad)

        def outs(s):
            s.ghost["outside"] = s.ghost.get("outside", 0) + 1
            return ex.havoc_ret(_T32, "outside_" + a.name)
        return ranged(st, a, ad, ins, outs)

    def as_write(ex, st, args):
        a = the_as(args[0])
        if a is None:
            return NOTMINE
        ad = addr_of(args[1])

        def ins(s):
            touch(s, a, ad)
            set_elem(ex, s, a, ad, args[2])
            return elem(ex, s, a, ad)

        def outs(s):
            s.ghost["outside"] = s.ghost.get("outside", 0) + 1
            return ex.havoc_ret(_T32, "outside_" + a.name)
        return ranged(st, a, ad, ins, outs)

    def as_get_cell(ex, st, args):
        a = the_as(args[0])
        if a is None:
            return NOTMINE
        ad = addr_of(args[1])

        def outs(s):
            s.ghost["outside"] = s.ghost.get("outside", 0) + 1
            return a.dummy
        return ranged(st, a, ad, lambda s: CellPtr(a, ad), outs)

    def cell_read(ex, st, args):
        c = args[0]
        if isinstance(c, int):
            c = cell_at(c)
        if not isinstance(c, CellPtr):
            return NOTMINE
        return elem(ex, st, c.as_, c.idx)

    def cell_write(ex, st, args):
        c = args[0]
        if isinstance(c, int):
            c = cell_at(c)
        if not isinstance(c, CellPtr):
            return NOTMINE
        set_elem(ex, st, c.as_, c.idx, args[1])
        return elem(ex, st, c.as_, c.idx)

    def cell_at(p):
        for a in ex.ases.values():
            lo, n = a.cells
            if lo <= p < lo + n * a.cs and (p - lo) % a.cs == 0:
                return CellPtr(a, (p - lo) // a.cs + a.start)
        return None

    def cell_eq(ex, st, args):
        r = cell_write(ex, st, args)
        return r if r is NOTMINE else args[0]

    def zero(ex, st, args):
        if the_as(args[0]) is None and not isinstance(args[0], CellPtr):
            return NOTMINE
        return 0

    ex.contract(r"^cl_address_space::(read|get)\(unsigned int(, hw_cath)?\)$", as_read)
    ex.contract(r"^cl_address_space::(write|set|download)\(unsigned int, unsigned int\)$", as_write)
    ex.contract(r"^cl_address_space::get_cell\(unsigned int\)$", as_get_cell)
    ex.contract(r"^cl_(memory_cell|cell8|cell16|cell32|bit_cell\w*|c65)::(read|get|R|d)\((hw_cath)?\)$", cell_read)
    ex.contract(r"^cl_(memory_cell|cell8|cell16|cell32|bit_cell\w*|c65)::(write|set|W|d|dl|download)\(unsigned int\)$", cell_write)
    ex.contract(r"^cl_memory_cell::operator=\(unsigned int\)$", cell_eq)
    ex.contract(r"^cl_memory_cell::(get_flags?|set_flags?)\(", zero)
    ex.contract(r"^cl_address_space::(get_cell_flag|set_cell_flag)\(", zero)


class _T:
    k, w = "int", 32


_T32 = _T()
