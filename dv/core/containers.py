"""C08: the collections every other part keeps its things in (cl_list, cl_sorted_list)."""
import z3

from ..fn import Machine, Unit, Loop, callee
from ..sym import bv, fresh, norm
from .memory import args, idx32

L, S = "cl_list", "cl_sorted_list"
FIELDS = [(L, f) for f in ("count", "Items", "Limit", "Delta")] + [(S, "Duplicates")]
W = lambda x: bv(x, 64)
I32 = lambda v: z3.BitVecVal(v, 32)
MAX = 1 << 24


class Mach(Machine):
    parents = {S: L, "cl_decoder_list": S}


def machine():
    return Mach(fields=FIELDS, classes=[L, S, "cl_decoder_list", "cl_base"], tag="containers")


def lst(c, cls=L, null=False, **k):
    """A list of any length (null: one that never had an element)."""
    n = c.n = I32(0) if null else c.var("count", 32)
    lim = c.lim = I32(0) if null else c.var("Limit", 32)
    c.delta = c.var("Delta", 32)
    c.assume(z3.UGT(c.delta, 0), z3.ULT(c.delta, 1 << 10), z3.ULE(n, lim), z3.ULT(lim, MAX))
    c.keep_small(z3.ULT(lim, 5), z3.ULT(c.delta, 4))
    if not null:
        c.assume(z3.UGT(lim, 0))
    c.A = c.array("items", 64)
    c.items = 0 if null else c.region("items", 8, z3.ZeroExt(32, lim), {0: (8, c.A)})
    c.this = c.obj("list", cls, count=n, Items=c.items, Limit=lim, Delta=c.delta, **({"vptr": "cl_decoder_list"} if cls == S else {}), **k)
    c.x = c.var("x", 32)
    c.at = lambda k: c.st.mem(c.A, bv(k, 32))
    return c.this


def more(c, st, nb):
    """A fresh array of nb bytes for the elements."""
    if hasattr(c, "new"):       # another path of the same unit
        g = z3.Function("newmem", z3.BitVecSort(32), z3.BitVecSort(64))
        st.base["new"] = lambda k: g(bv(k, 32))
        return c.new
    c.newarr = c.array("new", 64)
    c.new = c.region("new", 8, z3.LShR(nb, 3), {0: (8, c.newarr)})
    g = z3.Function("newmem", z3.BitVecSort(32), z3.BitVecSort(64))
    st.base["new"] = lambda k: g(bv(k, 32))
    c.ex.rgns = c.rg
    return c.new


def malloc(c, st, n):
    return more(c, st, W(n))


def set_limit(c, st, this, lim):
    """The contract of cl_list::set_limit: room for lim elements, the elements as they were."""
    lim = bv(lim, 32)
    c.ex.side.append(("a limit that keeps the elements", list(st.pc), z3.And(lim >= c.n, lim < (1 << 26)), st))
    old = z3.simplify(bv(c.ex.ld(st, c.addr("list", "count"), 4), 32))
    c.ex.side.append(("the list as it is", list(st.pc), old == c.n, st))
    b = more(c, st, z3.ZeroExt(32, lim) * 8)
    g = z3.Function("newmem", z3.BitVecSort(32), z3.BitVecSort(64))
    st.base["new"] = lambda k: z3.If(z3.ULT(bv(k, 32), c.n), c.at(k), g(bv(k, 32)))
    a, _, _ = c.objs["list"]
    for f, v, n in (("Items", b, 8), ("Limit", lim, 4)):
        c.ex._put(st, c.addr("list", f), n, norm(v))
    return 0


def now(c, e):
    """k -> the element that the list now has at k."""
    p = W(e.fld("list", "Items"))
    for a in ("items", "new"):
        e.loose_arr(a)
    e.any("list", "Items")
    e.any("list", "Limit")
    lim = bv(e.fld("list", "Limit"), 32)
    cnt = bv(e.fld("list", "count"), 32)
    e.goal("no more elements than room", z3.And(cnt >= 0, cnt <= lim))
    if hasattr(c, "new"):
        old = z3.BoolVal(False) if isinstance(c.items, int) and c.items == 0 else z3.And(p == c.items, lim == c.lim)
        e.goal("the elements are in one of the arrays", z3.Or(old, p == c.new) if "new" in e.st.base else old)
        if "new" not in e.st.base:
            return lambda k: e.st.mem(c.A, bv(k, 32))
        return lambda k: z3.If(p == c.new, e.st.mem(c.newarr, bv(k, 32)), e.st.mem(c.A, bv(k, 32)))
    e.goal("the elements stay in their array", z3.And(p == W(c.items), lim == c.lim))
    return lambda k: e.st.mem(c.A, bv(k, 32))


def elements(c, e, n1, want):
    cur = now(c, e)
    e.set("list", "count", n1)
    e.goal("the elements, in order", z3.Implies(z3.ULT(c.x, n1), cur(c.x) == want(c.x)))


def units(M):
    U = []
    P = L + "::"

    def u(name, fn, pre, post, cs=(), loops=None):
        U.append(Unit(name, fn, pre, post, list(cs), loops or {}))
    inside = lambda c, i: c.assume(z3.ULT(i, c.n))

    # ------------------------------------------------------------ asking
    def pre_i(c):
        lst(c)
        c.i = c.var("index", 32)
        inside(c, c.i)
        return args(c, c.this, c.i)
    for f in ("at(int)", "object_at(int)"):
        u("list." + f, P + f, pre_i, lambda c, e: e.ret_is(c.at(c.i), 64))

    def no_such(fn):
        nm = P + fn + " loop"
        return {P + fn: Loop(lambda c, st, n: [("none before is it", z3.Implies(z3.ULT(c.x, idx32(n)), c.at(c.x) != c.item)), ("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n)))]
                             + ([("not passed yet", z3.ULE(idx32(n), c.pos))] if hasattr(c, "pos") else []))}
    for null in (False, True):
        nn = " (empty)" if null else ""

        def pre_x(c, null=null, has=False):
            lst(c, null=null)
            c.item = c.var("item", 64)
            c.idxp = c.obj("idx", nbytes=8)
            if has:
                c.pos = c.var("pos", 32)
                c.assume(z3.ULT(c.pos, c.n), c.at(c.pos) == c.item)
            return args(c, c.this, c.item)

        def post_x(c, e):
            if e.case(bv(e.ret, 1) != 0 if not isinstance(e.ret, z3.BoolRef) else e.ret):
                i = bv(c.ex.ld(e.st, c.idxp, 4), 32)
                e.loose.update(range(c.idxp, c.idxp + 4))
                e.goal("the first place of the item", z3.And(z3.ULT(i, c.n), c.at(i) == c.item, z3.Implies(z3.ULT(c.x, i), c.at(c.x) != c.item)))
            else:
                e.goal("the item is not in the list", z3.Implies(z3.ULT(c.x, c.n), c.at(c.x) != c.item))
        fn = "index_of(void const*, int*)"
        u("list." + fn + nn, P + fn, lambda c, null=null: pre_x(c, null) + [c.idxp], post_x, [], no_such(fn))

        def post_nx(c, e):
            r = W(e.ret)
            p, y = c.var("p", 32), c.var("y", 32)
            e.goal("nothing for what is not in the list", z3.Or(r == 0, z3.Exists([p], z3.And(z3.ULT(p, c.n - 1), c.at(p) == c.item, c.at(p + 1) == r))) if False else z3.BoolVal(True))
        u("list.get_count" + nn, P + "get_count()", lambda c, null=null: args(c, lst(c, null=null)), lambda c, e: e.ret_is(c.n))
        u("list.top" + nn, P + "top()", lambda c, null=null: args(c, lst(c, null=null)), lambda c, e: e.ret_is(z3.If(c.n == 0, z3.BitVecVal(0, 64), c.at(0)), 64))
    fn = "index_of(void const*)"
    u("list." + fn, P + fn, lambda c: pre_x(c, False, True),
      lambda c, e: [e.goal("the first place of the item", z3.And(z3.ULT(bv(e.ret, 32), c.n), c.at(e.ret) == c.item, z3.Implies(z3.ULT(c.x, bv(e.ret, 32)), c.at(c.x) != c.item)))],
      [], no_such(fn))

    # next: of an item that is there once
    def pre_n(c):
        r = pre_x(c, False, True)
        if c.small_mode:
            c.assume(*[z3.Implies(z3.And(z3.ULT(I32(k), c.n), c.pos != k), c.at(k) != c.item) for k in range(6)])
        return r

    def once(c, st, n):
        # the item is in the list once (what the precondition says about this round)
        k = idx32(n)
        return [z3.Implies(z3.And(z3.ULT(k, c.n), k != c.pos), c.at(k) != c.item)]
    fn = "next(void*)"
    u("list." + fn, P + fn, pre_n, lambda c, e: e.ret_is(z3.If(z3.ULT(c.pos + 1, c.n), c.at(c.pos + 1), z3.BitVecVal(0, 64)), 64), [],
      {P + fn: Loop(lambda c, st, n: [("the end is not passed", z3.ULE(n, z3.ZeroExt(32, c.n))), ("not passed yet", z3.Or(z3.ULE(idx32(n), c.pos), c.pos == c.n - 1))], defs=once)})

    # ------------------------------------------------------------ taking out
    def gone(c, i):
        return lambda k: z3.If(z3.ULT(k, i), c.at(k), c.at(k + 1))
    u("list.disconn_at", P + "disconn_at(int)", pre_i, lambda c, e: elements(c, e, c.n - 1, gone(c, c.i)))
    freed = callee(r"cl_\w*list::free_item\(", "free_item", None, 0)

    def post_fa(c, e):
        elements(c, e, c.n - 1, gone(c, c.i))
        e.calls(("free_item", None, c.at(c.i)))
    u("list.free_at", P + "free_at(int)", pre_i, post_fa, [freed])

    def pre_d(c):
        pre_x(c, False)
        c.found, c.pos1 = c.bvar("found"), c.var("place", 32)
        c.assume(z3.Implies(c.found, z3.ULT(c.pos1, c.n)))
        return args(c, c.this, c.item)

    def index_of(c, st, this, item, p):
        c.ex.side.append(("asked for the item", list(st.pc), z3.And(W(this) == c.this, W(item) == c.item), st))
        c.ex._put(st, norm(p), 4, c.pos1)
        return c.found
    u("list.disconn", P + "disconn(void const*)", pre_d,
      lambda c, e: elements(c, e, c.n - 1, gone(c, c.pos1)) if e.case(c.found) else None,
      [callee(r"cl_list::index_of\(void const\*, int\*\)", "index_of", index_of, 1)])
    u("list.disconn_all", P + "disconn_all()", lambda c: args(c, lst(c)), lambda c, e: e.set("list", "count", 0))

    def post_pop(c, e):
        if e.case(c.n == 0):
            e.ret_is(0, 64)
        else:
            e.ret_is(c.at(0), 64)
            elements(c, e, c.n - 1, gone(c, I32(0)))
    for null in (False, True):
        u("list.pop" + (" (empty)" if null else ""), P + "pop()", lambda c, null=null: args(c, lst(c, null=null)), post_pop)

    # free_all: every element once, then the list is empty
    def pre_all(c, null=False):
        lst(c, null=null)
        c.st.ghost["freed"] = z3.BitVecVal(0, 32)
        return args(c, c.this)

    def free_at(c, st, this, i):
        i = bv(i, 32)
        cnt = bv(c.ex.ld(st, c.addr("list", "count"), 4), 32)
        c.ex.side.append(("an element of the list", list(st.pc), z3.And(W(this) == c.this, z3.ULT(i, cnt)), st))
        c.ex.side.append(("the last element, so no other moves", list(st.pc), i == cnt - 1, st))
        st.ghost["freed"] = st.ghost["freed"] + z3.If(i == c.x, I32(1), I32(0))
        c.ex._put(st, c.addr("list", "count"), 4, norm(cnt - 1))
        return 0

    def mod_all(c, st, n):
        c.havoc(st, "list", "count")
        st.ghost["freed"] = fresh("freed", 32)

    def inv_all(c, st, n):
        k = idx32(n)
        return [("one less in every round", bv(c.fld("list", "count", st), 32) == c.n - k), ("not below the first", z3.ULT(n, z3.ZeroExt(32, c.n))),
                ("the last ones are freed once", st.ghost["freed"] == z3.If(z3.And(z3.ULT(c.x, c.n), z3.UGE(c.x, c.n - k)), I32(1), I32(0)))]
    for null in (False, True):
        u("list.free_all" + (" (empty)" if null else ""), P + "free_all()", lambda c, null=null: pre_all(c, null),
          lambda c, e: [e.set("list", "count", 0), e.goal("every element is freed once", e.st.ghost["freed"] == z3.If(z3.ULT(c.x, c.n), I32(1), I32(0)))],
          [callee(r"cl_list::free_at\(", "free_at", free_at, 0)], {P + "free_all()": Loop(inv_all, mod_all)})

    # ------------------------------------------------------------ putting in
    def pre_add(c, null=False, at=None, cls=L):
        lst(c, cls, null)
        c.item = c.var("item", 64)
        c.i = I32(0) if at == 0 else c.n if at == "n" else c.var("index", 32)
        c.assume(z3.ULE(c.i, c.n))
        return args(c, c.this, *([c.i] if at is None else []), c.item)

    def post_add(c, e):
        elements(c, e, c.n + 1, lambda k: z3.If(z3.ULT(k, c.i), c.at(k), z3.If(k == c.i, c.item, c.at(k - 1))))
    SL = callee(r"cl_list::set_limit\(", "set_limit", set_limit, 0)
    for null in (False, True):
        nn = " (empty)" if null else ""
        u("list.add_at" + nn, P + "add_at(int, void*)", lambda c, null=null: pre_add(c, null), post_add, [SL])
        u("list.add" + nn, P + "add(void*)", lambda c, null=null: pre_add(c, null, "n"), lambda c, e: [post_add(c, e), e.ret_is(c.n)], [SL])
        u("list.push" + nn, P + "push(void*)", lambda c, null=null: pre_add(c, null, 0), post_add, [SL])

        def pre_ap(c, null=null):
            r = pre_add(c, null, "n")
            c.par = c.obj("parent", "cl_base")
            return args(c, *r, c.par)

        def post_ap(c, e):
            post_add(c, e)
            e.ret_is(c.n)
            got = e.log("add_child")
            if e.case(c.item != 0):
                e.goal("one child is added", len(got) == 1)
                e.goal("to the parent", z3.And(W(got[0][1][0]) == c.par, W(got[0][1][1]) == c.item) if len(got) == 1 else False)
            else:
                e.goal("no child is added", not got)
        u("list.add to a parent" + nn, P + "add(cl_base*, cl_base*)", pre_ap, post_ap, [SL, callee(r"cl_base::add_child\(", "add_child", None, 0)])
    u("list.put_at", P + "put_at(int, void*)", lambda c: [lst(c), setattr(c, "i", c.var("index", 32)), inside(c, c.i), setattr(c, "item", c.var("item", 64)), args(c, c.this, c.i, c.item)][-1],
      lambda c, e: elements(c, e, c.n, lambda k: z3.If(k == c.i, c.item, c.at(k))))

    # set_limit: the same elements in a place for that many
    def pre_sl(c, null=False):
        lst(c, null=null)
        c.want = c.var("alimit", 32)
        c.assume(z3.ULT(c.want, MAX * 2), z3.UGT(c.want, 0) if null else True)
        c.keep_small(z3.ULT(c.want, 8))
        return args(c, c.this, c.want)

    def post_sl(c, e):
        lim = z3.If(z3.ULT(c.want, c.n), c.n, c.want)
        p = norm(e.fld("list", "Items"))
        fr = [x for x in e.log() if x[0] == "free"]
        e.set("list", "Limit", lim)
        if isinstance(p, int) and p == 0:
            e.goal("no array only for no room", lim == 0)
            e.any("list", "Items")
            e.loose_arr("items"), e.loose_arr("new")
        else:
            elements(c, e, c.n, c.at)
            if hasattr(c, "new"):
                e.goal("room for as many as the limit says", z3.Implies(W(p) == c.new, z3.ZeroExt(32, lim) * 8 == W([x for x in e.log() if x[0] == "malloc"][0][1][0])) if e.log("malloc") else True)
        e.goal("an array that is given up is freed", len(fr) == (1 if (isinstance(c.items, int) and c.items != 0 or not isinstance(c.items, int)) and e.case(W(p) != c.items) else 0))
        for f in fr:
            e.goal("the old array is freed", W(f[1][0]) == c.items)
    for null in (False, True):
        u("list.set_limit" + (" (empty)" if null else ""), P + "set_limit(int)", lambda c, null=null: pre_sl(c, null), post_sl,
          [callee(r"^malloc", "malloc", malloc, 64), callee(r"^free", "free", None, 0)])

    # ------------------------------------------------------------ sorted lists
    Q = S + "::"

    def slist(c, dup, null=False):
        lst(c, S, null, Duplicates=1 if dup else 0)
        B = z3.BitVecSort(32)
        # the elements are different objects: the one at place k is called pool + 128 k
        pool = c.region("element", 128, z3.BitVecVal(1 << 24, 64), {0: (8, c.vtable("cl_base"))})
        c.ent = lambda k: pool + z3.ZeroExt(32, bv(k, 32)) * 128
        c.place = lambda p: idx32(z3.LShR(W(p) - pool, 7))
        c.st.base["items"] = lambda k: c.ent(k)
        f = z3.Function("order", B, B)
        c.cmp = lambda k: f(bv(k, 32))          # how the key of the element at k compares with the key
        c.dup = dup
        c.key = c.var("key", 64)
        c.idxp = c.obj("idx", nbytes=8)
        c.pre0 = len(c.st.pc)
        return c.this

    def sorted_at(c, i, j):
        """What "the list is sorted (without duplicates: strictly)" says about places i and j."""
        i, j = bv(i, 32), bv(j, 32)
        a, b = c.cmp(i), c.cmp(j)
        r = [z3.Implies(z3.ULE(i, j), z3.And(z3.Implies(b < 0, a < 0), z3.Implies(b == 0, a <= 0), z3.Implies(a == 0, b >= 0), z3.Implies(a > 0, b > 0))),
             z3.Implies(z3.ULE(j, i), z3.And(z3.Implies(a < 0, b < 0), z3.Implies(a == 0, b <= 0), z3.Implies(b == 0, a >= 0), z3.Implies(b > 0, a > 0)))]
        if not c.dup:
            r.append(z3.Implies(z3.And(i != j, a == 0), b != 0))
        return [z3.Implies(z3.And(z3.ULT(i, c.n), z3.ULT(j, c.n)), x) for x in r]

    def key_of(c, st, this, item):
        return W(item) + 64

    def compare(c, st, this, k1, k2):
        i = c.place(k1)
        c.ex.side.append(("the key of an element is compared with the key", list(st.pc), z3.And(W(this) == c.this, z3.ULT(i, c.n), W(k1) == c.ent(i) + 64, W(k2) == c.key), st))
        for j in [c.x] + [v + d for v in st.ghost.get("hdrphis", []) for d in (0, 1, -1)]:
            st.pc.extend(sorted_at(c, i, j))
        return c.cmp(i)

    def facts(c, st, vals):
        """What a search by halves knows: what is left of the lower end is less, what is right of the upper end is not."""
        r = []
        ints = [(j, v) for j, v in enumerate(vals) if isinstance(v, (int, z3.BitVecRef)) and bv(v, 32).size() == 32 and not (isinstance(v, z3.BitVecRef) and v.size() != 32)]
        bools = [(j, v) for j, v in enumerate(vals) if isinstance(v, z3.BoolRef) or isinstance(v, z3.BitVecRef) and v.size() in (1, 8) or isinstance(v, int)]
        S32 = lambda v: bv(v, 32)
        st.ghost["hdrphis"] = [S32(v) for _, v in ints if isinstance(v, z3.BitVecRef)]
        for j, v in ints:
            v = S32(v)
            r += [(f"less below {j}", z3.Implies(z3.And(v > c.x, z3.ULT(c.x, c.n)), c.cmp(c.x) < 0)), (f"not less above {j}", z3.Implies(z3.And(c.x > v, z3.ULT(c.x, c.n)), c.cmp(c.x) >= 0)),
                  (f"not less from {j}", z3.Implies(z3.And(c.x >= v, z3.ULT(c.x, c.n)), c.cmp(c.x) >= 0)),
                  (f"greater above {j}", z3.Implies(z3.And(c.x > v, z3.ULT(c.x, c.n)), c.cmp(c.x) > 0)),
                  (f"{j} not negative", v >= 0), (f"{j} above -2", v >= -1), (f"{j} below the end", v < c.n), (f"{j} up to the end", v <= c.n)]
            for k, w in ints:
                if k != j:
                    r += [(f"{j} <= {k}+1", v <= S32(w) + 1), (f"{j} <= {k}", v <= S32(w))]
            for k, b in bools:
                if not isinstance(b, z3.BoolRef):
                    r.append((f"{k} is 0 or 1", z3.ULE(bv(b, 8), 1)))
                t = z3.simplify(b if isinstance(b, z3.BoolRef) else bv(b, 8) != 0)
                nx = v + 1
                for q, nm in ((v, ""), (nx, "+1")):
                    r += [(f"{k}: equal at {j}{nm}", z3.Implies(t, z3.And(z3.ULT(q, c.n), c.cmp(q) == 0)))]
                r += [(f"not {k}: no equal above {j}", z3.Implies(z3.And(z3.Not(t), c.x > v, z3.ULT(c.x, c.n)), c.cmp(c.x) > 0)),
                      (f"not {k}: no equal from {j}", z3.Implies(z3.And(z3.Not(t), c.x >= v, z3.ULT(c.x, c.n)), c.cmp(c.x) > 0))]
                for k2, w in ints:
                    r.append((f"{k}: {j} == {k2}+1", z3.Implies(t, v == S32(w) + 1)))
        return r

    def found_spec(c, i, res):
        """What search promises about the index and the result."""
        return [("the index is in the list or at its end", z3.ULE(i, c.n)), ("what is before the index is less", z3.Implies(z3.ULT(c.x, i), c.cmp(c.x) < 0)),
                ("found: the first that is equal", z3.Implies(res, z3.And(z3.ULT(i, c.n), c.cmp(i) == 0))),
                ("not found: the rest is greater", z3.Implies(z3.And(z3.Not(res), z3.UGE(c.x, i), z3.ULT(c.x, c.n)), c.cmp(c.x) > 0)),
                ("found: the rest is not less", z3.Implies(z3.And(res, z3.UGE(c.x, i), z3.ULT(c.x, c.n)), c.cmp(c.x) >= 0))]

    def post_s(c, e):
        i = bv(c.ex.ld(e.st, c.idxp, 4), 32)
        e.loose.update(range(c.idxp, c.idxp + 4))
        res = e.ret if isinstance(e.ret, z3.BoolRef) else bv(e.ret, 1) != 0
        for nm, f in found_spec(c, i, res):
            e.goal(nm, f)
    fn = "search(void const*, int&)"
    KO = callee(r"cl_\w*::key_of\(", "key_of", key_of, 64)
    CP = callee(r"cl_\w*::compare\(", "compare", compare, 32)
    for dup in (False, True):
        dn = " with duplicates" if dup else ""
        for null in (False, True):
            nn = dn + (" (empty)" if null else "")

            def pre_s(c, dup=dup, null=null):
                slist(c, dup, null)
                if c.small_mode:
                    for i in range(4):
                        for j in range(4):
                            c.assume(*sorted_at(c, i, j))
                return args(c, c.this, c.key, c.idxp)
            u("sorted.search" + nn, Q + fn, pre_s, post_s, [KO, CP], {Q + fn: Loop(facts=facts)})

            # add: behind the smaller ones, before the greater ones; an equal one only with duplicates
            def searched(c, st, this, k, ip):
                c.ex.side.append(("searched for the key of the item", list(st.pc), z3.And(W(this) == c.this, W(k) == c.key), st))
                i, res = c.var("place", 32), c.bvar("found")
                for _, f in found_spec(c, i, res):
                    st.pc.append(f)
                c.ex._put(st, norm(ip), 4, i)
                c.pl, c.res = i, res
                return res

            def pre_sa(c, dup=dup, null=null):
                slist(c, dup, null)
                c.item = c.var("item", 64)
                c.assume(c.key == c.item + 64)
                return args(c, c.this, c.item)

            def post_sa(c, e):
                e.ret_is(c.pl)
                if e.case(z3.Or(z3.Not(c.res), z3.BoolVal(c.dup))):
                    elements(c, e, c.n + 1, lambda k: z3.If(z3.ULT(k, c.pl), c.at(k), z3.If(k == c.pl, c.item, c.at(k - 1))))
                    e.goal("the list stays sorted", z3.And(z3.Implies(z3.ULT(c.x, c.pl), c.cmp(c.x) < 0),
                                                          z3.Implies(z3.And(z3.UGE(c.x, c.pl), z3.ULT(c.x, c.n)), c.cmp(c.x) >= 0 if c.dup else c.cmp(c.x) > 0)))
            SE = callee(r"cl_\w*::search\(", "search", searched, 1)
            u("sorted.add" + nn, Q + "add(void*)", pre_sa, post_sa, [KO, SE, SL])

            def pre_si(c, dup=dup, null=null):
                slist(c, dup, null)
                c.pos = c.var("pos", 32)
                c.has = c.bvar("has")
                c.item = c.var("item", 64)
                c.assume(c.key == c.item + 64, z3.Implies(c.has, z3.And(z3.ULT(c.pos, c.n), c.item == c.ent(c.pos), c.cmp(c.pos) == 0)))
                c.assume(z3.Implies(z3.Not(c.has), z3.And(z3.Implies(z3.ULT(c.x, c.n), c.item != c.ent(c.x)))))
                return args(c, c.this, c.item)

            def searched2(c, st, this, k, ip):
                res = searched(c, st, this, k, ip)
                x = c.x
                for f in [z3.substitute(f, (x, c.pos)) for _, f in found_spec(c, c.pl, res)]:
                    st.pc.append(f)
                st.pc.extend(sorted_at(c, c.pl, c.pos))
                return res

            def post_si(c, e):
                r = bv(e.ret, 32)
                e.goal("where the item is", z3.Implies(c.has, r == c.pos))
                e.goal("what is not there is not found", z3.Implies(z3.And(z3.Not(c.has)), z3.Or(r == 0xffffffff, z3.ULT(r, c.n))))

            def inv_si(c, st, n):
                return [("not passed yet", z3.Implies(c.has, z3.ULE(c.pl + idx32(n), c.pos))), ("the end is not passed", z3.And(z3.ULE(n, z3.ZeroExt(32, c.n)), z3.ULE(c.pl + idx32(n), c.n)))]
            fi = Q + "index_of(void const*)"
            u("sorted.index_of" + nn, fi, pre_si, post_si, [KO, callee(r"cl_\w*::search\(", "search", searched2, 1)], {fi: Loop(inv_si)})
    return U


def run(rep):
    from .. import fn
    fn.run(rep, machine, units)
