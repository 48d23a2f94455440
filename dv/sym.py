"""Symbolic executor / VC generator over the LLVM IR of /repo's code.

Integers are Python ints (concrete) or z3 bit-vectors; i1 is 0/1 or a z3 Bool. Memory is the flat
address space of the constructed machine (harness.Image) under an overlay of symbolic writes; each
simulated address space is a ghost array (AS). A call to a function under contract uses the
contract; every other function body is executed in place. Loops run to their bound; a loop without
a bound is cut by an invariant (see loops.py) or reported Unsupported.
"""
import itertools
import z3

from .llvm import Unsupported, Module

U64 = (1 << 64) - 1
STACK = 0x7E0000000000
FHEAP = 0x7C0000000000
FFUNC = 0x7A0000000000
EXTG = 0x7900_0000_0000
_cnt = itertools.count()


def fresh(name, w):
    return z3.BitVec(f"{name}!{next(_cnt)}", w)


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def boolv(v):
    if isinstance(v, (int, bool)):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef):
        return v != 0
    return v


def norm(v):
    """Simplify; constants become Python ints."""
    if isinstance(v, int):
        return v
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class CellPtr:
    """Pointer into the cell that an address space has at a (possibly symbolic) index."""
    __slots__ = ("as_", "idx", "off")

    def __init__(self, as_, idx, off=0):
        self.as_, self.idx, self.off = as_, idx, off

    def __repr__(self):
        return f"&{self.as_.name}[{self.idx}]+{self.off}"


class CondPtr:
    """If-then-else over pointers that are not plain integers."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def atom_of(e):
    """The only non-arithmetic subterm of e, or None."""
    K = (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BSHL, z3.Z3_OP_BSUB)
    found, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return True
        seen.add(x.get_id())
        if z3.is_bv_value(x):
            return True
        if z3.is_app(x) and x.decl().kind() in K:
            return all(go(c) for c in x.children())
        if found and not found[0].eq(x):
            return False
        found.append(x)
        return True
    if not go(e) or not found:
        return None
    x = found[0]
    # bits of a wider term: narrow it when it is an extract of zero-extended stuff
    return x


class Crash(Exception):
    pass


class AS:
    """A simulated address space: a ghost array of w-bit elements."""

    def __init__(self, name, addr, start, size, w, vptr=0):
        self.name, self.addr, self.start, self.size, self.w, self.vptr = name, addr, start, size, w, vptr
        self.fn = None
        self.alias = None        # idx -> (AS, idx, shift, nbits) for bit / mirrored spaces
        self.slots = None


class Frame:
    __slots__ = ("fn", "vals", "bi", "ii", "prev", "ret", "visits", "sp")

    def copy(self):
        f = Frame()
        f.fn, f.vals, f.bi, f.ii, f.prev, f.ret = self.fn, list(self.vals), self.bi, self.ii, self.prev, self.ret
        f.visits, f.sp = dict(self.visits), self.sp
        return f


class State:
    def __init__(self):
        self.ov = {}
        self.arr = {}
        self.base = {}
        self.pc = []
        self.frames = []
        self.ghost = {}
        self.objs = []
        self.sp = STACK
        self.hp = FHEAP
        self.model = None
        self.dead = None
        self.ret = None

    def fork(self):
        s = State()
        s.ov = dict(self.ov)
        s.arr = dict(self.arr)
        s.base = dict(self.base)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = {k: (list(v) if isinstance(v, list) else v) for k, v in self.ghost.items()}
        s.objs = list(self.objs)
        s.sp, s.hp, s.model = self.sp, self.hp, self.model
        return s

    def mem(self, as_, idx):
        """Read element idx of a ghost array."""
        ws = self.arr.get(as_.name, ())
        idx = norm(bv(idx, 32))
        r = self.base.get(as_.name, as_.fn)(bv(idx, 32))
        start = 0
        # walk back to the last write that certainly decides
        chain = []
        for c, i, v in reversed(ws):
            if isinstance(i, int) and isinstance(idx, int):
                if i != idx:
                    continue
                if c is True:
                    r = bv(v, as_.w)
                    break
                chain.append((c, v))
                continue
            e = norm(bv(i, 32) == bv(idx, 32))
            if isinstance(e, int) and e == 0:
                continue
            if isinstance(e, int):
                if c is True:
                    r = bv(v, as_.w)
                    break
                chain.append((c, v))
                continue
            chain.append((e if c is True else z3.And(c, e), v))
        for c, v in reversed(chain):
            r = z3.If(c, bv(v, as_.w), r)
        return norm(r)

    def setmem(self, as_, idx, v, cond=True):
        self.arr[as_.name] = self.arr.get(as_.name, ()) + ((cond, norm(bv(idx, 32)), norm(bv(v, as_.w))),)


NOTMINE = object()


class Exec:
    def __init__(self, bc, img, opts=None):
        self.m = bc if isinstance(bc, Module) else Module(bc)
        self.img = img
        self.contracts = {}
        self.rx_contracts = []
        self._hc = {}
        self.ases = {}
        self.slot_of = {}      # data address -> (AS, idx)
        self.timeout = 20000
        self.max_visits = 3000
        self.max_states = 4000
        self.max_steps = 400000
        self.max_enum = 300
        self.fake_fn = {}
        self.fake_of = {}
        self.ext, self.ext_bytes = {}, {}
        self.used_contracts = {}
        self.inlined = {}
        self.externals_used = {}
        self.nq = 0
        self.qtime = 0.0
        self.loops = {}
        self._solver = None
        self._solver_n = 0
        self.side = []         # side obligations: (name, state, cond)
        self.dem = self.m.demangled

    # ---------------------------------------------------------------- solver
    def check(self, pc, *extra, timeout=None):
        import time
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for c in pc:
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        self.nq += 1
        self.qtime += time.time() - t
        if r == z3.sat:
            return True, s.model()
        if r == z3.unsat:
            return False, None
        return None, s.reason_unknown()

    def feasible(self, st, cond):
        if st.model is not None:
            v = st.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                return True, st.model
        r, m = self.check(st.pc, cond)
        if r is None:
            raise Unsupported("solver gave up on a path condition: " + str(m))
        return r, m

    def add_pc(self, st, cond, model=None):
        st.pc.append(cond)
        if model is not None:
            st.model = model
        elif st.model is not None and not z3.is_true(st.model.eval(cond, model_completion=True)):
            st.model = None

    def decide(self, st, cond):
        """-> True / False / None (both) without forking."""
        c = norm(boolv(cond))
        if isinstance(c, int):
            return bool(c)
        t, _ = self.feasible(st, c)
        if not t:
            return False
        f, _ = self.feasible(st, z3.Not(c))
        if not f:
            return True
        return None

    def split(self, st, cond):
        """-> [(state, bool)] with the path condition extended."""
        c = norm(boolv(cond))
        if isinstance(c, int):
            return [(st, bool(c))]
        t, mt = self.feasible(st, c)
        if not t:
            return [(st, False)]
        nc = z3.Not(c)
        f, mf = self.feasible(st, nc)
        if not f:
            return [(st, True)]
        s2 = st.fork()
        self.add_pc(st, c, mt)
        self.add_pc(s2, nc, mf)
        return [(st, True), (s2, False)]

    def values(self, st, e, limit=None):
        """All values the bit-vector e can take on this path."""
        e = norm(e)
        if isinstance(e, int):
            return [e]
        out = []
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for c in st.pc:
            s.add(c)
        while True:
            self.nq += 1
            r = s.check()
            if r == z3.unsat:
                return sorted(out)
            if r != z3.sat:
                raise Unsupported("solver gave up enumerating a pointer")
            v = s.model().eval(e, model_completion=True).as_long()
            out.append(v)
            if len(out) > (limit or self.max_enum):
                raise Unsupported("a pointer takes too many values: " + str(e)[:300])
            s.add(e != v)

    # ---------------------------------------------------------------- addresses of globals
    def gaddr(self, name):
        a = self.img.sym.get(name)
        if a is not None:
            return a
        a = self.ext.get(name)
        if a is None:
            if name in self.m.globals:
                a = EXTG + len(self.ext) * 0x100000
                self.ext[name] = a
            else:
                return self.faddr(name)
        return a

    def faddr(self, name):
        a = self.img.sym.get(name)
        if a is not None:
            return a
        a = self.fake_fn.get(name)
        if a is None:
            a = FFUNC + 16 * len(self.fake_fn)
            self.fake_fn[name] = a
            self.fake_of[a] = name
        return a

    def fname(self, a):
        n = self.fake_of.get(a)
        if n:
            return n
        names = self.img.sym_at.get(a, [])
        for n in names:
            if n in self.m.fns and not self.m.fns[n].decl:
                return n
        for n in names:
            if n in self.m.fns or n in self.m.aliases:
                return n
        return names[0] if names else None

    def const(self, c):
        k = c[0]
        if k == "i":
            return c[1]
        if k == "fn":
            return self.faddr(c[1])
        if k == "g":
            return (self.gaddr(c[1]) + c[2]) & U64
        if k == "undef":
            t = c[1]
            if t.k in ("int", "ptr"):
                return fresh("undef", t.w) if t.w > 1 else z3.Bool(f"undef!{next(_cnt)}")
            if t.k == "struct":
                return [self.const(("undef", x)) for x in t.el]
            if t.k == "double":
                return z3.fpBVToFP(fresh("undef", 64), z3.Float64())
            raise Unsupported("undef of " + t.k)
        if k == "fp":
            return z3.FPVal(c[1], z3.Float64() if c[2].w == 64 else z3.Float32())
        if k == "agg":
            t = c[1]
            out = []
            for off, n, x in self.m.flatten(c[2]):
                if x[0] == "zero":
                    return self.zero(t)
                out.append(self.const(x))
            return out
        if k == "cexpr":
            o, t, ops = c[1], c[2], [self.const(x) for x in c[3]]
            if o in ("add", "sub") and all(isinstance(x, int) for x in ops):
                return (ops[0] + ops[1] if o == "add" else ops[0] - ops[1]) & ((1 << t.w) - 1)
            if o == "trunc" and isinstance(ops[0], int):
                return ops[0] & ((1 << t.w) - 1)
        raise Unsupported(f"constant {c}")

    def zero(self, t):
        if t.k == "struct":
            return [self.zero(x) for x in t.el]
        return 0

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, what="heap"):
        a = st.hp
        st.hp += (size + 15) // 16 * 16 + 4096
        st.objs.append((a, size, what))
        return a

    def alloca(self, st, size):
        a = st.sp
        st.sp += (max(size, 1) + 15) // 16 * 16 + 64
        st.objs.append((a, size, "stack"))
        return a

    def valid(self, st, a, n):
        if a >= EXTG:
            if a < FFUNC:
                return True
            for b, sz, _ in reversed(st.objs):
                if b <= a and a + n <= b + sz:
                    return True
            return False
        return self.img.seg(a, n) is not None

    def private_const(self, a, n):
        """The value of a constant without a symbol of its own (a local constant table)."""
        k = (a - EXTG) // 0x100000
        names = list(self.ext)
        if k >= len(names):
            return None
        b = self.ext_bytes.get(k)
        if b is None:
            b = {}
            for off, size, c in self.m.const_init(names[k]) or ():
                if c[0] == "i":
                    v = c[1]
                elif c[0] == "zero":
                    v = 0
                elif c[0] == "g":
                    v = self.gaddr(c[1]) + c[2]
                else:
                    continue
                for i in range(size):
                    b[off + i] = v >> (8 * i) & 255
            self.ext_bytes[k] = b
        o = (a - EXTG) % 0x100000
        if all(o + i in b for i in range(n)):
            return sum(b[o + i] << (8 * i) for i in range(n))
        return None

    def default(self, st, a, n):
        """Value of never-written memory."""
        if a >= EXTG:
            v = self.private_const(a, n)
            if v is not None:
                return v
            v = fresh(f"mem_{a:x}", 8 * n)
            self._put(st, a, n, v)
            return v
        v = self.img.read(a, n)
        if v is None:
            raise Crash(f"access to unmapped address {a:#x}")
        return v

    def _byte(self, st, a):
        for k in range(16):
            e = st.ov.get(a - k)
            if e is not None and e[0] > k:
                v = e[1]
                if isinstance(v, int):
                    return (v >> 8 * k) & 255
                if isinstance(v, z3.FPRef):
                    v = z3.fpToIEEEBV(v)
                if not isinstance(v, z3.BitVecRef):
                    raise Unsupported("byte of a cell pointer")
                return norm(z3.Extract(8 * k + 7, 8 * k, v)) if e[0] > 1 else v
        return None

    def ld(self, st, a, n):
        """n bytes at concrete address a."""
        e = st.ov.get(a)
        if e is not None and e[0] == n:
            return e[1]
        s = self.slot_of.get(a)
        if s is not None:
            as_, i = s
            if as_.w == 8 * n:
                return st.mem(as_, i)
            if 8 * n > as_.w and as_.w == 8:
                bs = [self.ld(st, a + k, 1) for k in range(n)]
                return self.join(bs)
            raise Unsupported("odd access to memory data")
        if not self.valid(st, a, n):
            raise Crash(f"access to invalid address {a:#x} size {n}")
        hit = False
        ov = st.ov
        for k in range(-15, n):
            e = ov.get(a + k)
            if e is not None and (k >= 0 or e[0] > -k):
                hit = True
                break
        if not hit:
            return self.default(st, a, n)
        bs = []
        for k in range(n):
            b = self._byte(st, a + k)
            if b is None:
                b = self.default(st, a + k, 1)
            bs.append(b)
        return self.join(bs)

    @staticmethod
    def join(bs):
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        if len(bs) == 1:
            return bs[0]
        return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def _put(self, st, a, n, v):
        ov = st.ov
        e = ov.get(a)
        if e is not None and e[0] == n:
            ov[a] = (n, v)
            return
        for k in range(-15, n):
            e = ov.get(a + k)
            if e is not None and (k >= 0 or e[0] > -k):
                base, sz = a + k, e[0]
                bs = [self._byte(st, base + j) for j in range(sz)]
                del ov[base]
                for j in range(sz):
                    if not (a <= base + j < a + n):
                        ov[base + j] = (1, bs[j])
        ov[a] = (n, v)

    def sto(self, st, a, n, v):
        s = self.slot_of.get(a)
        if s is not None:
            as_, i = s
            if as_.w == 8 * n:
                st.setmem(as_, i, v)
                return
            raise Unsupported("odd store to memory data")
        if not self.valid(st, a, n):
            raise Crash(f"store to invalid address {a:#x} size {n}")
        sg = None if a >= EXTG else self.img.seg(a, n)
        self._put(st, a, n, v)

    # typed access through a possibly symbolic pointer
    def load(self, st, t, p):
        n = t.store
        if isinstance(p, CellPtr):
            if p.off == 0 and n == 8:
                return p.as_.vptr
            raise Unsupported(f"direct load from a memory cell (+{p.off})")
        if isinstance(p, CondPtr):
            a, b = self.load(st, t, p.a), self.load(st, t, p.b)
            return self.ite(p.c, a, b, t)
        p = norm(p)
        if isinstance(p, int):
            return self.conv(self.ld(st, p, n), t)
        r = self.table(st, t, p)
        if r is not None:
            return r
        vals = self.values(st, p)
        r = None
        for v in vals:
            x = self.conv(self.ld(st, v, n), t)
            r = x if r is None else self.ite(p == v, x, r, t)
        if r is None:
            raise Crash("unreachable")
        return r

    def table(self, st, t, p):
        """Load at an address that depends on one small term only: a multiplexer over its bits."""
        if t.k not in ("int", "ptr"):
            return None
        x = atom_of(p)
        if x is None or x.size() > 10:
            return None
        w = x.size()
        vals = []
        for k in range(1 << w):
            a = norm(z3.substitute(p, (x, z3.BitVecVal(k, w))))
            if not isinstance(a, int):
                return None
            if not self.valid(st, a, t.store):
                vals.append(None)
                continue
            v = self.conv(self.ld(st, a, t.store), t)
            if not isinstance(v, int):
                return None
            vals.append(v)
        bad = [k for k, v in enumerate(vals) if v is None]
        if bad:
            if any(self.feasible(st, z3.Or(*[x == k for k in bad]))[0:1]):
                return None
            vals = [vals[0] if v is None else v for v in vals]
            if vals[0] is None:
                return None
        if t.k == "ptr" and len(set(vals)) > 1:
            return None
        memo = {}

        def mux(lo, n):
            if n == 1:
                return vals[lo]
            key = tuple(vals[lo:lo + n])
            if key in memo:
                return memo[key]
            a, b = mux(lo, n // 2), mux(lo + n // 2, n // 2)
            if a is b or isinstance(a, int) and isinstance(b, int) and a == b:
                r = a
            else:
                i = n.bit_length() - 2
                r = z3.If(z3.Extract(i, i, x) == 1, bv(b, t.w), bv(a, t.w))
            memo[key] = r
            return r
        return norm(mux(0, 1 << w)) if len(vals) > 1 else vals[0]

    def conv(self, v, t):
        if t.k == "double":
            if isinstance(v, z3.FPRef):
                return v
            return z3.simplify(z3.fpBVToFP(bv(v, 64), z3.Float64()))
        if t.k == "float":
            if isinstance(v, z3.FPRef):
                return v
            return z3.simplify(z3.fpBVToFP(bv(v, 32), z3.Float32()))
        if isinstance(v, z3.FPRef):
            v = z3.fpToIEEEBV(v)
        if t.k == "int" and t.w < 8 * t.store:
            if t.w == 1:
                return v & 1 if isinstance(v, int) else norm(z3.Extract(0, 0, v) == 1)
            return v & ((1 << t.w) - 1) if isinstance(v, int) else z3.Extract(t.w - 1, 0, v)
        return v

    def store(self, st, t, v, p):
        n = t.store
        if isinstance(p, CellPtr):
            raise Unsupported(f"direct store to a memory cell (+{p.off})")
        if isinstance(p, CondPtr):
            raise Unsupported("store through a choice of cells")
        if t.k == "int" and t.w < 8 * n:
            v = norm(bv(v, 8 * n)) if t.w == 1 else (v if isinstance(v, int) else z3.ZeroExt(8 * n - t.w, v))
        p = norm(p)
        if isinstance(p, int):
            self.sto(st, p, n, v)
            return
        vals = self.values(st, p)
        for a in vals:
            if len(vals) == 1:
                self.sto(st, a, n, v)
            else:
                old = self.ld(st, a, n)
                self.sto(st, a, n, self.ite(p == a, v, old, t if t.w >= 8 or t.k != "int" else None, 8 * n))

    def ite(self, c, a, b, t=None, w=None):
        c = norm(boolv(c))
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, (CellPtr, CondPtr)) or isinstance(b, (CellPtr, CondPtr)):
            return CondPtr(c, a, b)
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
            return z3.If(c, a, b)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if w is None:
            w = t.w if t is not None else (a.size() if not isinstance(a, int) else b.size())
        if w == 1:
            return z3.If(c, boolv(a), boolv(b))
        return z3.If(c, bv(a, w), bv(b, w))

    # ---------------------------------------------------------------- running
    def start(self, st, fname, args):
        fn = self.fn(fname)
        self.push(st, fn, args, None)

    def fn(self, name):
        f = self.m.fns.get(name)
        if f is None:
            mn = self.m.by_demangled.get(name)
            if mn is None:
                raise Unsupported(f"no function {name}")
            f = self.m.fns.get(mn)
            if f is None:
                f = self.m.fns[self.m.const(self.m.aliases[mn])[1]]
        return f

    def push(self, st, fn, args, ret):
        if fn.decl:
            raise Unsupported(f"call of the external function {fn.name}")
        if len(st.frames) > 60:
            raise Unsupported("recursion too deep in " + fn.name)
        f = Frame()
        f.fn, f.bi, f.ii, f.prev, f.ret = fn, 0, 0, -1, ret
        fn.blocks
        f.vals = [None] * fn._nslots
        f.visits = {}
        f.sp = st.sp
        for (slot, t), a in zip(fn.params, args):
            f.vals[slot] = a
        st.frames.append(f)
        self.inlined[fn.name] = self.inlined.get(fn.name, 0) + 1

    def run(self, st):
        """Explore every path; -> list of final states (ret set, or dead = reason)."""
        work, done = [st], []
        steps = 0
        base = len(st.frames) - 1
        while work:
            s = work.pop()
            while True:
                if s.dead is not None:
                    done.append(s)
                    break
                steps += 1
                if steps > self.max_steps:
                    raise Unsupported("too many steps")
                try:
                    r = self.step(s, base)
                except Crash as e:
                    s.dead = str(e)
                    done.append(s)
                    break
                if r is None:
                    continue
                if r == "end":
                    done.append(s)
                    break
                # list of states
                if len(r) == 1 and r[0] is s:
                    continue
                work.extend(r[1:])
                if not r:
                    break
                if r[0] is not s:
                    s = r[0]
            if len(done) + len(work) > self.max_states:
                raise Unsupported("too many paths")
        return done

    def val(self, fr, o):
        if o[0] == "v":
            v = fr.vals[o[1]]
            if v is None:
                raise Unsupported(f"undefined SSA value in {fr.fn.name}")
            return v
        return self.const(o[1])

    def goto(self, st, fr, target):
        blocks = fr.fn.blocks
        prev = fr.bi
        n = fr.visits.get(target, 0) + 1
        fr.visits[target] = n
        if n > self.max_visits:
            raise Unsupported(f"loop without a bound in {self.dem.get(fr.fn.name, fr.fn.name)}")
        phis = []
        b = blocks[target]
        i = 0
        while b[i][0] == "phi":
            phis.append((b[i][1], self.val(fr, b[i][3][prev])))
            i += 1
        for d, v in phis:
            fr.vals[d] = v
        fr.prev, fr.bi, fr.ii = prev, target, i
        key = (fr.fn.name, target)
        h = self.loops.get(key)
        if h is not None:
            return h(self, st, fr, n)
        return None

    def step(self, st, base=0):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.bi][fr.ii]
        o = ins[0]
        fr.ii += 1
        if o == "load":
            fr.vals[ins[1]] = self.load(st, ins[2], self.val(fr, ins[3]))
            return None
        if o == "store":
            self.store(st, ins[2], self.val(fr, ins[3]), self.val(fr, ins[4]))
            return None
        if o in BIN:
            t = ins[2]
            a, b = self.val(fr, ins[3]), self.val(fr, ins[4])
            fr.vals[ins[1]] = self.binop(st, o, t.w, a, b)
            return None
        if o == "icmp":
            fr.vals[ins[1]] = self.icmp(st, ins[2], ins[3].w, self.val(fr, ins[4]), self.val(fr, ins[5]))
            return None
        if o == "br":
            if ins[2] is None:
                return self.goto(st, fr, ins[3])
            c = norm(boolv(self.val(fr, ins[2])))
            if isinstance(c, int):
                return self.goto(st, fr, ins[3] if c else ins[4])
            out = []
            for s, b in self.split(st, c):
                r = self.goto(s, s.frames[-1], ins[3] if b else ins[4])
                out.extend([s] if r is None else r)
            return out
        if o == "call":
            return self.call(st, fr, ins)
        if o == "ret":
            v = self.val(fr, ins[2]) if ins[2] is not None else None
            while st.objs and st.objs[-1][0] >= STACK and st.objs[-1][0] >= fr.sp:
                st.objs.pop()
            st.frames.pop()
            if len(st.frames) <= base:
                st.ret = v
                return "end"
            if fr.ret is not None:
                st.frames[-1].vals[fr.ret] = v if v is not None else 0
            return None
        if o == "gep":
            p = self.val(fr, ins[2])
            fr.vals[ins[1]] = self.gep(p, ins[3], [(self.val(fr, ix), w, sc) for ix, w, sc in ins[4]])
            return None
        if o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            fr.vals[ins[1]] = self.cast(o, ins[2], ins[3], self.val(fr, ins[4]))
            return None
        if o == "select":
            c = norm(boolv(self.val(fr, ins[3])))
            a, b = self.val(fr, ins[4]), self.val(fr, ins[5])
            fr.vals[ins[1]] = self.ite(c, a, b, ins[2])
            return None
        if o == "switch":
            return self.switch(st, fr, ins)
        if o == "alloca":
            n = self.val(fr, ins[3])
            if not isinstance(n, int):
                raise Unsupported("variable-size alloca")
            fr.vals[ins[1]] = self.alloca(st, ins[2].size * n)
            return None
        if o in ("uitofp", "sitofp", "fptoui", "fptosi", "fptrunc", "fpext"):
            fr.vals[ins[1]] = self.fcast(o, ins[2], ins[3], self.val(fr, ins[4]))
            return None
        if o in FBIN:
            a, b = self.fp(self.val(fr, ins[3]), ins[2]), self.fp(self.val(fr, ins[4]), ins[2])
            fr.vals[ins[1]] = z3.simplify(FBIN[o](z3.RNE(), a, b))
            return None
        if o == "fneg":
            fr.vals[ins[1]] = z3.fpNeg(self.fp(self.val(fr, ins[3]), ins[2]))
            return None
        if o == "fcmp":
            a, b = self.fp(self.val(fr, ins[4]), ins[3]), self.fp(self.val(fr, ins[5]), ins[3])
            fr.vals[ins[1]] = norm(self.fcmp(ins[2], a, b))
            return None
        if o == "extractvalue":
            v = self.val(fr, ins[2])
            for i in ins[3]:
                v = v[i]
            fr.vals[ins[1]] = v
            return None
        if o == "insertvalue":
            v = list(self.val(fr, ins[2]))
            if len(ins[4]) != 1:
                raise Unsupported("nested insertvalue")
            v[ins[4][0]] = self.val(fr, ins[3])
            fr.vals[ins[1]] = v
            return None
        if o == "unreachable":
            raise Crash("reached unreachable code in " + fr.fn.name)
        raise Unsupported(f"instruction {o}: {ins[-1]}")

    def fp(self, v, t):
        if isinstance(v, z3.FPRef):
            return v
        return self.conv(v, t)

    @staticmethod
    def fcmp(p, a, b):
        if p in ("true", "false"):
            return z3.BoolVal(p == "true")
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == "uno":
            return un
        if p == "ord":
            return z3.Not(un)
        f = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ,
             "ne": z3.fpNEQ}[p[1:]](a, b)
        return z3.Or(un, f) if p[0] == "u" else z3.And(z3.Not(un), f)

    def fcast(self, o, ta, tb, v):
        S = {64: z3.Float64(), 32: z3.Float32()}
        if o == "uitofp":
            return z3.simplify(z3.fpToFPUnsigned(z3.RNE(), bv(v, ta.w), S[tb.w]))
        if o == "sitofp":
            return z3.simplify(z3.fpToFP(z3.RNE(), bv(v, ta.w), S[tb.w]))
        v = self.fp(v, ta)
        if o == "fptoui":
            return norm(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(tb.w)))
        if o == "fptosi":
            return norm(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(tb.w)))
        return z3.simplify(z3.fpToFP(z3.RNE(), v, S[tb.w]))

    def gep(self, p, const, var):
        if isinstance(p, CondPtr):
            return CondPtr(p.c, self.gep(p.a, const, var), self.gep(p.b, const, var))
        if isinstance(p, CellPtr):
            if var:
                raise Unsupported("array of memory cells")
            return CellPtr(p.as_, p.idx, p.off + const)
        if isinstance(p, int) and all(isinstance(v, int) for v, _, _ in var):
            return (p + const + sum(sgn(v, w) * sc for v, w, sc in var)) & U64
        r = bv(p, 64)
        if const:
            r = r + const
        for v, w, sc in var:
            if isinstance(v, (CellPtr, CondPtr)):
                raise Unsupported("cell pointer as index")
            x = bv(v, w)
            if w < 64:
                x = z3.SignExt(64 - w, x)
            r = r + x * sc
        return norm(r)

    def cast(self, o, ta, tb, v):
        if o in ("bitcast", "ptrtoint", "inttoptr") and (ta.w == tb.w or ta.k not in ("int", "ptr")):
            if ta.k in ("double", "float") and tb.k == "int":
                return z3.fpToIEEEBV(v)
            if tb.k in ("double", "float") and ta.k == "int":
                return self.conv(v, tb)
            return v
        if isinstance(v, (CellPtr, CondPtr)):
            raise Unsupported("integer from a cell pointer")
        wa, wb = ta.w, tb.w
        if wb < wa:
            if isinstance(v, int):
                return v & ((1 << wb) - 1)
            if wb == 1:
                return z3.Extract(0, 0, v) == 1
            return z3.simplify(z3.Extract(wb - 1, 0, v))
        if wa == 1:
            if isinstance(v, int):
                return (1 if o != "sext" else (1 << wb) - 1) if v else 0
            t = (1 << wb) - 1 if o == "sext" else 1
            return z3.If(v, z3.BitVecVal(t, wb), z3.BitVecVal(0, wb))
        if isinstance(v, int):
            return v if o != "sext" else sgn(v, wa) & ((1 << wb) - 1)
        return z3.SignExt(wb - wa, v) if o == "sext" else z3.ZeroExt(wb - wa, v)

    def binop(self, st, o, w, a, b):
        if isinstance(a, (CellPtr, CondPtr)) or isinstance(b, (CellPtr, CondPtr)):
            raise Unsupported("arithmetic on a cell pointer")
        if w == 1:
            A, B = norm(boolv(a)), norm(boolv(b))
            if o == "and":
                if isinstance(A, int):
                    return B if A else 0
                if isinstance(B, int):
                    return A if B else 0
                return z3.And(A, B)
            if o == "or":
                if isinstance(A, int):
                    return 1 if A else B
                if isinstance(B, int):
                    return 1 if B else A
                return z3.Or(A, B)
            if o in ("xor", "add", "sub"):
                return norm(z3.Xor(boolv(A), boolv(B)))
            raise Unsupported("i1 " + o)
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if o == "add":
                return (a + b) & mask
            if o == "sub":
                return (a - b) & mask
            if o == "mul":
                return (a * b) & mask
            if o == "and":
                return a & b
            if o == "or":
                return a | b
            if o == "xor":
                return a ^ b
            if o in ("shl", "lshr", "ashr"):
                if b >= w:
                    return fresh("overshift", w)
                return (a << b) & mask if o == "shl" else a >> b if o == "lshr" else (sgn(a, w) >> b) & mask
            if b == 0:
                raise Crash("division by zero")
            if o == "udiv":
                return a // b
            if o == "urem":
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            q = -q if (sa < 0) != (sb < 0) else q
            return (q if o == "sdiv" else sa - q * sb) & mask
        if o == "and" and ((isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0)):
            return 0
        if isinstance(b, int) and b == 0 and o in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return a
        A, B = bv(a, w), bv(b, w)
        if o == "add":
            return A + B
        if o == "sub":
            return A - B
        if o == "mul":
            return A * B
        if o == "and":
            return norm(A & B)
        if o == "or":
            return norm(A | B)
        if o == "xor":
            return norm(A ^ B)
        if o in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w:
                    return fresh("overshift", w)
                r = A << B if o == "shl" else z3.LShR(A, B) if o == "lshr" else A >> B
                return norm(r)
            ok = self.decide(st, z3.ULT(B, w))
            r = A << B if o == "shl" else z3.LShR(A, B) if o == "lshr" else A >> B
            if ok is True:
                return r
            return z3.If(z3.ULT(B, w), r, fresh("overshift", w))
        # divisions
        if not isinstance(b, int):
            z = self.decide(st, B == 0)
            if z is True:
                raise Crash("division by zero")
            if z is None:
                self.side.append(("division by zero", st.fork(), B != 0))
                self.add_pc(st, B != 0)
        return norm({"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[o](A, B))

    def icmp(self, st, p, w, a, b):
        if isinstance(a, (CellPtr, CondPtr)) or isinstance(b, (CellPtr, CondPtr)):
            return self.ptrcmp(p, a, b)
        if w == 1:
            A, B = boolv(a), boolv(b)
            if p == "eq":
                return norm(A == B)
            if p == "ne":
                return norm(A != B)
            raise Unsupported("i1 compare")
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}
                       [p if p in ("eq", "ne") else p[1:]])
        A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
             "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "sgt": lambda: A > B, "sge": lambda: A >= B,
             "slt": lambda: A < B, "sle": lambda: A <= B}[p]()
        return norm(r)

    def ptrcmp(self, p, a, b):
        if p not in ("eq", "ne"):
            raise Unsupported("ordering of cell pointers")
        if isinstance(a, CondPtr):
            r = self.ite(a.c, self.ptrcmp("eq", a.a, b), self.ptrcmp("eq", a.b, b), None, 1)
        elif isinstance(b, CondPtr):
            r = self.ite(b.c, self.ptrcmp("eq", a, b.a), self.ptrcmp("eq", a, b.b), None, 1)
        elif isinstance(a, CellPtr) and isinstance(b, CellPtr):
            if a.as_ is not b.as_ or a.off != b.off:
                r = 0
            else:
                r = norm(bv(a.idx, 32) == bv(b.idx, 32))
        elif isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
            r = norm(bv(a, 64) == bv(b, 64))
        else:
            c, x = (a, b) if isinstance(a, CellPtr) else (b, a)
            if isinstance(x, int) and c.as_.cells is not None:
                lo, n = c.as_.cells
                if lo <= x < lo + n * 32 and x != 0:
                    r = norm(bv(c.idx, 32) == (x - lo) // 32 + c.as_.start)
                else:
                    r = 0
            elif isinstance(x, int):
                r = 0
            else:
                raise Unsupported("cell pointer compared with an unknown pointer")
        if p == "eq":
            return r
        return 1 - r if isinstance(r, int) else z3.Not(r)

    def switch(self, st, fr, ins):
        t, v, dflt, cases = ins[2], self.val(fr, ins[3]), ins[4], ins[5]
        v = norm(v)
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            cases = [(int(c) & 1, b) for c, b in cases]
        if isinstance(v, int):
            for c, b in cases:
                if c == v:
                    return self.goto(st, fr, b)
            return self.goto(st, fr, dflt)
        groups = {}
        for c, b in cases:
            groups.setdefault(b, []).append(c)
        out = []
        conds = [(z3.Or([v == c for c in cs]) if len(cs) > 1 else v == cs[0], b) for b, cs in groups.items()]
        conds.append((z3.And([v != c for c, _ in cases]), dflt))
        live = []
        for c, b in conds:
            f, m = self.feasible(st, c)
            if f:
                live.append((c, b, m))
        for k, (c, b, m) in enumerate(live):
            s = st if k == len(live) - 1 else st.fork()
            if len(live) > 1:
                self.add_pc(s, c, m)
            r = self.goto(s, s.frames[-1], b)
            out.extend([s] if r is None else r)
        return out

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, ins):
        d, rt, callee, args = ins[1], ins[2], ins[3], ins[4]
        a = [None if x is None else self.val(fr, x) for x in args]
        if callee[0] == "c" and callee[1][0] == "fn":
            return self.call_name(st, d, rt, callee[1][1], a, ins)
        p = self.val(fr, callee)
        return self.call_ptr(st, d, rt, p, a, ins)

    def call_ptr(self, st, d, rt, p, a, ins):
        if isinstance(p, (CellPtr, CondPtr)):
            raise Unsupported("call through a cell")
        p = norm(p)
        if not isinstance(p, int):
            vals = self.values(st, p)
            out = []
            for k, v in enumerate(vals):
                s = st if k == len(vals) - 1 else st.fork()
                if len(vals) > 1:
                    self.add_pc(s, p == v)
                n = self.fname(v)
                try:
                    r = self.call_name(s, d, rt, n, list(a), ins, v)
                except Crash as e:
                    s.dead = str(e)
                    r = [s]
                out.extend([s] if r is None else r)
            return out
        return self.call_name(st, d, rt, self.fname(p), a, ins, p)

    def call_name(self, st, d, rt, name, a, ins, addr=None):
        if name is None:
            raise Crash(f"call of address {addr:#x}, which is no function")
        # a choice of cells as "this" is split
        if a and isinstance(a[0], CondPtr):
            out = []
            for s, b in self.split(st, a[0].c):
                aa = [a[0].a if b else a[0].b] + a[1:]
                r = self.call_name(s, d, rt, name, aa, ins, addr)
                out.extend([s] if r is None else r)
            return out
        dn = self.dem.get(name, name)
        h = self.lookup(dn) or self.contracts.get(name)
        if h is not None:
            r = h(self, st, a)
            if r is not NOTMINE:
                self.used_contracts[dn] = self.used_contracts.get(dn, 0) + 1
                if isinstance(r, list):
                    out = []
                    for s, v in r:
                        s.frames[-1].vals[d] = v if v is not None else 0
                        out.append(s)
                    return out
                st.frames[-1].vals[d] = r if r is not None else 0
                return None
        if name.startswith("llvm."):
            st.frames[-1].vals[d] = self.intrinsic(st, name, a, rt, ins)
            return None
        f = self.m.fns.get(name)
        if f is None and name in self.m.aliases:
            f = self.m.fns[self.m.const(self.m.aliases[name])[1]]
        if f is not None and not f.decl:
            if a and isinstance(a[0], CellPtr):
                raise Unsupported(f"{dn} on a memory cell has no contract")
            self.push(st, f, a, d)
            return None
        st.frames[-1].vals[d] = self.external(st, name, a, rt, ins)
        return None

    def lookup(self, dn):
        h = self._hc.get(dn, self)
        if h is self:
            h = self.contracts.get(dn)
            if h is None:
                for rx, f in self.rx_contracts:
                    if rx.match(dn):
                        h = f
                        break
            self._hc[dn] = h
        return h

    def contract(self, rx, f):
        import re
        self.rx_contracts.append((re.compile(rx), f))
        self._hc = {}

    def cstr(self, st, p, limit=4096):
        p = norm(p)
        if not isinstance(p, int):
            raise Unsupported("symbolic string")
        out = bytearray()
        while len(out) < limit:
            b = self.ld(st, p + len(out), 1)
            b = norm(b)
            if not isinstance(b, int):
                raise Unsupported("symbolic string")
            if b == 0:
                return bytes(out)
            out.append(b)
        raise Unsupported("long string")

    def memcpy(self, st, d, s, n):
        d, s, n = norm(d), norm(s), norm(n)
        if not all(isinstance(x, int) for x in (d, s, n)):
            raise Unsupported("memcpy with symbolic operands")
        k = 0
        todo = []
        while k < n:
            e = st.ov.get(s + k)
            if e is not None and k + e[0] <= n:
                todo.append((k, e[0], e[1]))
                k += e[0]
                continue
            step = 8 if (n - k >= 8 and all(st.ov.get(s + k + j) is None for j in range(-15, 8))) else 1
            todo.append((k, step, self.ld(st, s + k, step)))
            k += step
        for k, m, v in todo:
            self.sto(st, d + k, m, v)

    def intrinsic(self, st, name, a, rt, ins):
        b = name.split(".")
        n = b[1]
        w = rt.w
        if n in ("lifetime", "dbg", "assume", "donothing", "prefetch", "experimental", "stacksave", "stackrestore",
                 "va_start", "va_end"):
            return 0
        if n in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2])
            return 0
        if n == "memset":
            d, v, k = norm(a[0]), norm(a[1]), norm(a[2])
            if not (isinstance(d, int) and isinstance(k, int)):
                raise Unsupported("memset with symbolic operands")
            i = 0
            while i < k:
                m = 8 if k - i >= 8 else 1
                self.sto(st, d + i, m, int.from_bytes(bytes([v]) * m, "little") if isinstance(v, int)
                         else (v if m == 1 else z3.Concat(*[v] * m)))
                i += m
            return 0
        if n == "expect":
            return a[0]
        if n in ("umax", "umin", "smax", "smin"):
            c = self.icmp(st, {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[n], w, a[0], a[1])
            return self.ite(c, a[0], a[1], None, w)
        if n == "abs":
            neg = self.binop(st, "sub", w, 0, a[0])
            return self.ite(self.icmp(st, "slt", w, a[0], 0), neg, a[0], None, w)
        if n in ("fshl", "fshr"):
            x, y, s = bv(a[0], w), bv(a[1], w), bv(a[2], w)
            c = z3.Concat(x, y)
            s = z3.ZeroExt(w, z3.URem(s, z3.BitVecVal(w, w)))
            return norm(z3.Extract(2 * w - 1, w, c << s) if n == "fshl" else z3.Extract(w - 1, 0, z3.LShR(c, s)))
        if n == "ctpop":
            x = bv(a[0], w)
            return norm(sum((z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(1, w)), z3.ZeroExt(w - 1, z3.Extract(0, 0, x))))
        if n in ("ctlz", "cttz"):
            x = bv(a[0], w)
            r = z3.BitVecVal(w, w)
            for i in (range(w) if n == "ctlz" else reversed(range(w))):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if n == "ctlz" else i, w), r)
            return norm(r)
        if n == "bswap":
            x = bv(a[0], w)
            return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
        if n == "bitreverse":
            x = bv(a[0], w)
            return norm(z3.Concat(*[z3.Extract(i, i, x) for i in range(w)]))
        if n == "usub" and b[2] == "sat":
            return self.ite(self.icmp(st, "ult", w, a[0], a[1]), 0, self.binop(st, "sub", w, a[0], a[1]), None, w)
        if n == "uadd" and b[2] == "sat":
            s = self.binop(st, "add", w, a[0], a[1])
            return self.ite(self.icmp(st, "ult", w, s, a[0]), (1 << w) - 1, s, None, w)
        if n == "uadd" and b[2] == "with":
            w = rt.el[0].w
            s = self.binop(st, "add", w, a[0], a[1])
            return [s, self.icmp(st, "ult", w, s, a[0])]
        if n == "usub" and b[2] == "with":
            w = rt.el[0].w
            return [self.binop(st, "sub", w, a[0], a[1]), self.icmp(st, "ult", w, a[0], a[1])]
        if n == "umul" and b[2] == "with":
            w = rt.el[0].w
            x = z3.ZeroExt(w, bv(a[0], w)) * z3.ZeroExt(w, bv(a[1], w))
            return [norm(z3.Extract(w - 1, 0, x)), norm(z3.Extract(2 * w - 1, w, x) != 0)]
        if n == "is":
            return 0
        if n in ("trap", "ubsantrap"):
            raise Crash("trap")
        if n == "fabs":
            return z3.fpAbs(self.fp(a[0], rt))
        if n == "fmuladd":
            x = [self.fp(v, rt) for v in a]
            return z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), x[0], x[1]), x[2])
        if n == "objectsize":
            return (1 << w) - 1
        raise Unsupported("intrinsic " + name)

    def havoc_ret(self, rt, name):
        if rt.k == "void":
            return 0
        if rt.k in ("int", "ptr"):
            if rt.w == 1:
                return z3.Bool(f"ret_{name}!{next(_cnt)}")
            return fresh("ret_" + name, rt.w)
        if rt.k == "double":
            return z3.fpBVToFP(fresh("ret_" + name, 64), z3.Float64())
        if rt.k == "struct":
            return [self.havoc_ret(t, name) for t in rt.el]
        raise Unsupported("result of " + name)

    PRINTERS = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fflush", "fwrite", "vfprintf", "putc",
                "vprintf", "perror", "fclose", "write", "_IO_putc", "usleep"}

    def external(self, st, name, a, rt, ins):
        self.externals_used[name] = self.externals_used.get(name, 0) + 1
        if name in self.PRINTERS:
            return self.havoc_ret(rt, name)
        if name in ("_Znwm", "_Znam", "malloc"):
            n = norm(a[0])
            if not isinstance(n, int):
                raise Unsupported("allocation of symbolic size")
            return self.alloc(st, n)
        if name == "calloc":
            n = norm(bv(a[0], 64) * bv(a[1], 64))
            if not isinstance(n, int):
                raise Unsupported("allocation of symbolic size")
            p = self.alloc(st, n)
            for i in range(n):
                self._put(st, p + i, 1, 0)
            return p
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm"):
            p = norm(a[0])
            if isinstance(p, int) and p:
                st.objs = [o for o in st.objs if o[0] != p]
                st.ghost.setdefault("freed", []).append(p)
            return 0
        if name == "strlen":
            return len(self.cstr(st, a[0]))
        if name in ("strcmp", "strcasecmp"):
            x, y = self.cstr(st, a[0]), self.cstr(st, a[1])
            if name == "strcasecmp":
                x, y = x.lower(), y.lower()
            return 0 if x == y else (1 if x > y else 0xffffffff)
        if name in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2])
            return a[0]
        if name == "memset":
            self.intrinsic(st, "llvm.memset", [a[0], norm(bv(a[1], 32)) & 255 if isinstance(norm(a[1]), int) else z3.Extract(7, 0, a[1]), a[2]], rt, ins)
            return a[0]
        if name in ("abort", "exit", "_exit", "__assert_fail", "__cxa_pure_virtual"):
            raise Crash("the program ends in " + name)
        if name == "abs":
            return self.intrinsic(st, "llvm.abs", a, rt, ins)
        raise Unsupported(f"call of the external function {self.dem.get(name, name)}")


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv,
        "frem": lambda rm, a, b: z3.fpRem(a, b)}
