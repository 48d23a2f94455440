"""Function contracts: one function of /repo at a time, against its callees' contracts.

A unit names a function, builds the objects it works on (every field an arbitrary value unless the
precondition says otherwise), runs the symbolic executor over the function's IR with the callees under
contract (each call is logged, its result is arbitrary within the callee's postcondition) and loops cut
by invariants, and then states the postcondition: the result, the final content of every object (all
that is not mentioned must be unchanged) and the calls that must have been made.
"""
import os
import re
import time
import traceback

import z3

from . import build, harness, check
from .llvm import Unsupported, Module
from .sym import AS, Exec, State, Crash, EXTG, STACK, FHEAP, NOTMINE, U64, bv, boolv, norm, fresh

OBJ = 0x6000_0000_0000      # objects a unit creates
RGN = 0x6100_0000_0000      # arrays of unbounded length, one per 2^38 bytes
RSPAN = 1 << 38


class Region:
    """`count` records of `stride` bytes; a field is a ghost array or a constant."""

    def __init__(self, name, base, stride, count, fields):
        self.name, self.base, self.stride, self.count, self.fields = name, base, stride, count, fields
        self.sh = stride.bit_length() - 1
        self.zero_index_only = False


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Retry(Exception):
    """A guessed loop fact does not hold; again without it."""


class Loop:
    """Invariant of one loop. inv(c, st, n) -> [(name, formula)] with n the number of finished rounds (64 bit);
    mod(c, st, n) puts arbitrary values into what the body changes; k picks the k-th loop header of the function."""

    def __init__(self, inv=None, mod=None, k=None, track=(), defs=None, facts=None):
        # facts(c, st, vals): guessed facts about the loop's own variables [(key, formula)]; those that do not hold are dropped
        self.facts = facts
        # defs(c, st, n): what the definitions of the ghost functions say about round n
        self.inv, self.mod, self.k, self.track, self.defs = inv, mod, k, track, defs


class FnExec(Exec):
    """The executor with unbounded arrays and loop invariants."""

    def __init__(self, bc, img):
        super().__init__(bc, img)
        self.rgns = []
        self.loop_specs = {}
        self.ctx = None
        self.cut = {}
        self.dropped = set()
        self.max_visits = 40

    # ------------------------------------------------------------ regions
    def _region(self, st, p):
        """-> (region, distance from its base, value on one path) or None."""
        if not self.rgns:
            return None
        if isinstance(p, int):
            if not (RGN <= p < RGN + RSPAN * len(self.rgns)):
                return None
            v = p
        else:
            v = None
            if st.model is not None:
                v = st.model.eval(p, model_completion=True).as_long()
            else:
                ok, m = self.check(st.pc)
                if ok is None:
                    raise Unsupported("solver gave up on a path condition")
                if ok is False:
                    raise Crash("infeasible")
                st.model = m
                v = m.eval(p, model_completion=True).as_long()
            if not (RGN <= v < RGN + RSPAN * len(self.rgns)):
                # some other value of p may still point into a region
                lo = z3.And(z3.UGE(p, RGN), z3.ULT(p, RGN + RSPAN * len(self.rgns)))
                if self.check(st.pc, lo)[0] is False:
                    return None
                raise Fork(lo)
        r = self.rgns[(v - RGN) // RSPAN]
        if not isinstance(p, int):
            lo = z3.And(z3.UGE(p, r.base), z3.ULT(p, r.base + RSPAN))
            if self.check(st.pc, z3.Not(lo))[0] is not False:
                raise Fork(lo)
        return r, norm(bv(p, 64) - r.base), v

    def _idx(self, r, d):
        if isinstance(d, int):
            return d >> r.sh
        return norm(z3.Extract(min(63, 32 + r.sh - 1), r.sh, d)) if r.sh else norm(z3.Extract(31, 0, d))

    def oblige(self, st, nm, c):
        """A condition the access needs: an obligation unless it obviously holds."""
        if c is None or z3.is_true(z3.simplify(c)):
            return
        ok, _ = self.check(st.pc, z3.Not(c))
        if ok is not False:
            self.side.append((nm, list(st.pc), c, st))
            self.add_pc(st, c)

    def _route(self, st, p, n):
        """-> (field, idx) or None."""
        x = self._region(st, p)
        if x is None:
            return None
        r, d, v = x
        off = (v - r.base) % r.stride
        fo = max((f for f in r.fields if f <= off), default=None)
        if fo is None:
            raise Unsupported(f"no field at +{off} of {r.name}")
        fn, what = r.fields[fo]
        sub = off - fo
        if sub or fn != n:
            raise Unsupported(f"odd access (+{off}, {n} bytes) to an element of {r.name}")
        idx = self._idx(r, d)
        if isinstance(d, int):
            inside, exact = z3.ULT(z3.BitVecVal(idx, 64), bv(r.count, 64)), None
        else:
            inside = z3.ULT(z3.LShR(d, r.sh), bv(r.count, 64))
            exact = z3.Extract(r.sh - 1, 0, d) == off if r.sh else None
        self.oblige(st, f"index inside {r.name}", inside)
        self.oblige(st, f"element of {r.name}", exact)
        return what, idx

    def memcpy(self, st, d, s, n):
        """Copies between arrays of unbounded length."""
        d, s, n = norm(d), norm(s), norm(n)
        if isinstance(n, int) and n == 0:
            return
        rd, rs = self._region(st, d), self._region(st, s)
        if rd is None and rs is None:
            return super().memcpy(st, d, s, n)
        if rd is None or rs is None:
            raise Unsupported("a copy into or out of an array of unbounded length")
        out = []
        for (r, o, v), nm in ((rd, "written"), (rs, "read")):
            if set(r.fields) != {0} or r.fields[0][0] != r.stride or not isinstance(r.fields[0][1], AS):
                raise Unsupported("a copy of " + r.name)
            if r.sh:
                self.oblige(st, f"element of {r.name}", z3.Extract(r.sh - 1, 0, bv(o, 64)) == 0)
            self.oblige(st, f"whole elements {nm}", z3.Extract(r.sh - 1, 0, bv(n, 64)) == 0 if r.sh else None)
            k = z3.LShR(bv(n, 64), r.sh)
            i = z3.LShR(bv(o, 64), r.sh)
            self.oblige(st, f"{nm} part inside {r.name}", z3.Or(k == 0, z3.And(z3.ULE(i, bv(r.count, 64)), z3.ULE(k, bv(r.count, 64) - i))))
            out.append((r, z3.simplify(z3.Extract(31, 0, i)), z3.simplify(z3.Extract(31, 0, k))))
        (a, i, k), (b, j, k2) = out
        if a.stride != b.stride:
            raise Unsupported("a copy between arrays of different elements")
        A, B = a.fields[0][1], b.fields[0][1]
        s0 = st.fork()
        s0.base = dict(st.base)
        st.arr.pop(A.name, None)
        st.base[A.name] = lambda x: z3.If(z3.And(z3.UGE(bv(x, 32), i), z3.ULT(bv(x, 32) - i, k)), bv(s0.mem(B, bv(x, 32) - i + j), A.w), bv(s0.mem(A, bv(x, 32)), A.w))

    def load(self, st, t, p):
        if self.rgns and isinstance(p, (int, z3.BitVecRef)):
            p = norm(p)
            r = self._route(st, p, t.store)
            if r is not None:
                what, idx = r
                if isinstance(what, AS):
                    return self.conv(st.mem(what, idx), t)
                if callable(what):
                    return self.conv(what(st, idx), t)
                return self.conv(what, t)
        return super().load(st, t, p)

    def store(self, st, t, v, p):
        if self.rgns and isinstance(p, (int, z3.BitVecRef)):
            p = norm(p)
            r = self._route(st, p, t.store)
            if r is not None:
                what, idx = r
                if not isinstance(what, AS):
                    raise Crash("a store to a constant field")
                if t.k == "int" and t.w < 8 * t.store:
                    v = bv(v, 8 * t.store) if t.w == 1 else z3.ZeroExt(8 * t.store - t.w, bv(v, t.w))
                st.setmem(what, idx, v)
                return
        super().store(st, t, v, p)

    def ld(self, st, a, n):
        if RGN <= a < RGN + RSPAN * len(self.rgns):
            r = self._route(st, a, n)
            what, idx = r
            return st.mem(what, idx) if isinstance(what, AS) else (what(st, idx) if callable(what) else what)
        return super().ld(st, a, n)

    def alloca(self, st, size):
        r = getattr(self.ctx, "stack", None)
        if r is not None and size >= 64:
            r.count = size          # the function's local array, as an array with symbolic index
            return r.base
        return super().alloca(st, size)

    def valid(self, st, a, n):
        if OBJ <= a < RGN:
            return any(b <= a and a + n <= b + s for b, s, _ in st.objs)
        return super().valid(st, a, n)

    def default(self, st, a, n):
        if OBJ <= a < RGN:
            raise Unsupported(f"uninitialised byte of an object at {a:#x}")
        return super().default(st, a, n)

    def step(self, st, base=0):
        fr = st.frames[-1]
        at = fr.ii
        try:
            return super().step(st, base)
        except Fork as f:
            if not isinstance(fr.fn.blocks[fr.bi][at], tuple) or fr.fn.blocks[fr.bi][at][0] not in ("load", "store"):
                raise Unsupported("a pointer that may or may not point into an array")
            fr.ii = at
            return [s for s, _ in self.split(st, f.cond)]

    # ------------------------------------------------------------ loops
    def headers(self, fn):
        h = getattr(fn, "_headers", None)
        if h is None:
            succ = []
            for b in fn.blocks:
                t = b[-1]
                s = []
                if t[0] == "br":
                    s = [x for x in t[3:5] if x is not None]
                elif t[0] == "switch":
                    s = [t[4]] + [x for _, x in t[5]]
                elif t[0] == "call" and t[6] is not None:
                    s = [t[6]]
                succ.append(s)
            idom = dominators(succ)
            h = {}
            for b, ss in enumerate(succ):
                for s in ss:
                    if dominates(idom, s, b):
                        h.setdefault(s, set()).add(b)
            fn._headers = h = dict(sorted(h.items()))
        return h

    def goto(self, st, fr, target):
        if self.loop_specs:
            h = self.headers(fr.fn)
            if target in h:
                dn = self.dem.get(fr.fn.name, fr.fn.name)
                specs = self.loop_specs.get(dn)
                k = list(h).index(target)
                spec = None
                if specs is not None:
                    spec = specs.get(k) if isinstance(specs, dict) else specs
                else:
                    dn, k, spec = self.moved_loop(st, fr, target, dn, k)
                if spec is not None:
                    return self.loop(st, fr, target, h[target], dn, k, spec)
        return super().goto(st, fr, target)

    def moved_loop(self, st, fr, target, dn, k):
        """The invariant of a loop that lives in a helper without contract: it belongs to the nearest caller that has
        invariants for more loops than it has loops of its own (the loop was moved out of it)."""
        for g in reversed(st.frames[:-1]):
            gd = self.dem.get(g.fn.name, g.fn.name)
            specs = self.loop_specs.get(gd)
            if specs is None:
                continue
            own = len(self.headers(g.fn))
            if own >= (max(specs) + 1 if isinstance(specs, dict) else 1):
                return dn, k, None
            if not isinstance(specs, dict):
                return gd, 0, specs
            flat = self.flat_loops(g.fn)
            if (fr.fn.name, target) not in flat:
                return dn, k, None
            j = flat.index((fr.fn.name, target))
            return gd, j, specs.get(j)
        return dn, k, None

    def flat_loops(self, fn, seen=()):
        """The loops of a function and of the helpers it calls, in program order."""
        out = []
        h = self.headers(fn)
        for b, blk in enumerate(fn.blocks):
            if b in h:
                out.append((fn.name, b))
            for i in blk:
                if i[0] == "call" and i[3][0] == "c" and i[3][1][0] == "fn":
                    n = i[3][1][1]
                    f = self.m.fns.get(n)
                    d = self.dem.get(n, n)
                    if f is not None and not f.decl and n not in seen and n != fn.name and d not in self.loop_specs and self.lookup(d) is None:
                        out += self.flat_loops(f, seen + (fn.name,))
        return out

    def loop(self, st, fr, target, latches, dn, k, spec):
        c = self.ctx
        prev = fr.bi
        back = prev in latches
        key = (len(st.frames), fr.fn.name, target)
        blk = fr.fn.blocks[target]
        phis = [(b[1], b[2], self.val(fr, b[3][prev]), b) for b in blk if b[0] == "phi"]
        nm = f"{dn.split('(')[0]} loop {k}"
        if not back:
            st.ghost["phis"] = [v for _, _, v, _ in phis]
            for name, f in (spec.inv(c, st, z3.BitVecVal(0, 64)) if spec.inv else []):
                self.side.append((f"{nm}: {name} holds on entry", list(st.pc), f, st))
            n = fresh("rounds", 64)
            steps = {}
            cand = []
            for d, t, v, b in phis:
                s = phi_step(fr.fn, b, latches)
                if s is not None and t.k in ("int", "ptr"):
                    nn = z3.Extract(t.w - 1, 0, n) if t.w < 64 else n
                    fr.vals[d] = norm(bv(v, t.w) + nn * z3.BitVecVal(s, t.w))
                    steps[d] = (v, s, t.w)
                elif t.k in ("int", "ptr"):
                    fr.vals[d] = fresh("phi", t.w) if t.w > 1 else z3.Bool(f"phi!{n}")
                else:
                    raise Unsupported("a loop variable of type " + t.k)
            gh0 = dict(st.ghost)
            st0 = st.fork() if spec.facts or spec.track else None
            if spec.mod:
                spec.mod(c, st, n)
            # memory the loop was seen to change: a step per round is guessed (1, then -1), else nothing is known
            mems = []
            for q in sorted((q for q in self.dropped if q[0] == nm and q[1] == "mem"), key=str):
                a, w = q[2], q[3]
                o = norm(self.ld(st, a, w))
                v = fresh("mem", 8 * w)
                for s in (1, -1):
                    if (nm, "memstep", a, s) not in self.dropped:
                        nn = z3.Extract(8 * w - 1, 0, n) if w < 8 else n
                        v = norm(bv(o, 8 * w) + nn * z3.BitVecVal(s, 8 * w))
                        mems.append((a, w, o, s))
                        break
                else:
                    mems.append((a, w, o, None))
                self._put(st, a, w, v)
            # loop variables that carry a tracked ghost value: guessed on entry, an obligation on every round
            for d, t, v, b in phis:
                for g in spec.track:
                    gv, at_n = (g(c, st0, z3.BitVecVal(0, 64)), g(c, st, n)) if callable(g) else (gh0[g], st.ghost[g])
                    if d in steps or t.k not in ("int", "ptr") or t.w == 1 or t.w != (64 if isinstance(gv, int) else gv.size()) or (nm, d, g) in self.dropped:
                        continue
                    if z3.is_true(z3.simplify(bv(v, t.w) == bv(gv, t.w))) or self.check(st.pc, bv(v, t.w) != gv)[0] is False:
                        self.add_pc(st, fr.vals[d] == at_n)
                        cand.append((d, g))
            if spec.facts:
                d0 = [boolv(f) for f in spec.defs(c, st0, z3.BitVecVal(0, 64))] if spec.defs else []
                v0 = dict(spec.facts(c, st0, [v for _, _, v, _ in phis] + [o for _, _, o, _ in mems]))
                for fk, f in spec.facts(c, st, [fr.vals[d] for d, _, _, _ in phis] + [norm(self.ld(st, a, w)) for a, w, _, _ in mems]):
                    if (nm, "fact", fk) not in self.dropped and self.check(st0.pc + d0, z3.Not(boolv(v0[fk])))[0] is False:
                        self.add_pc(st, boolv(f))
                        cand.append((None, fk))
            st.ghost["phis"] = [fr.vals[d] for d, _, _, _ in phis]
            for name, f in (spec.inv(c, st, n) if spec.inv else []):
                self.add_pc(st, boolv(f))
            for f in (spec.defs(c, st, n) if spec.defs else []):
                self.add_pc(st, boolv(f))
            # a round counter that wraps is no execution of this program's lifetime
            self.add_pc(st, z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
            if self.check(st.pc)[0] is False:
                raise Unsupported(f"{nm}: the invariant cannot be met")
            st.ghost["hdr"] = dict(st.ghost.get("hdr", {}))
            st.ghost["hdr"][key] = (n, dict(st.ov), dict(st.arr), dict(st.base), steps, [fr.vals[d] for d, _, _, _ in phis],
                                    {g: v for g, v in st.ghost.items() if isinstance(v, (int, z3.ExprRef))}, cand, mems)
            fr.prev, fr.bi, fr.ii = prev, target, len(phis)
            return None
        n, ov, arr, base, steps, _, gh, cand, mems = st.ghost["hdr"][key]
        n1 = n + 1
        for d, t, v, b in phis:
            if d in steps:
                v0, s, w = steps[d]
                nn = z3.Extract(w - 1, 0, n1) if w < 64 else n1
                self.side.append((f"{nm}: loop variable", list(st.pc), bv(v, w) == bv(v0, w) + nn * z3.BitVecVal(s, w), st))
            for d2, g in cand:
                if d2 == d:
                    f = bv(v, t.w) == bv(g(c, st, n1) if callable(g) else st.ghost[g], t.w)
                    if self.check(st.pc, z3.Not(f))[0] is not False:
                        raise Retry((nm, d, g))
        if spec.facts:
            v1 = dict(spec.facts(c, st, [v for d, t, v, b in phis] + [norm(self.ld(st, a, w)) for a, w, _, _ in mems]))
            lost = [fk for d2, fk in cand if d2 is None and self.check(st.pc, z3.Not(boolv(v1[fk])))[0] is not False]
            if lost:
                for fk in lost[1:]:
                    self.dropped.add((nm, "fact", fk))
                raise Retry((nm, "fact", lost[0]))
        st.ghost["phis"] = [v for d, t, v, b in phis]
        # what the body changed must be covered by the invariant's frame: put there by mod()
        hav = spec.mod is not None
        s2 = st.fork()
        if hav:
            spec.mod(c, s2, n1)
        covered = lambda a: hav and s2.ov.get(a) is not st.ov.get(a)
        for a, w, o, s in mems:
            if s is not None:
                nn = z3.Extract(8 * w - 1, 0, n1) if w < 8 else n1
                f = bv(self.ld(st, a, w), 8 * w) == bv(o, 8 * w) + nn * z3.BitVecVal(s, 8 * w)
                if self.check(st.pc, z3.Not(f))[0] is not False:
                    raise Retry((nm, "memstep", a, s))
        inmems = {a + i for a, w, _, _ in mems for i in range(w)}
        for a, e in st.ov.items():
            o = ov.get(a)
            if a >= FHEAP and o is None or o is e or covered(a) or a in inmems:
                continue
            if o is None or o[0] != e[0]:
                raise Unsupported(f"{nm} changes memory that its frame does not mention ({a:#x})")
            if isinstance(o[1], int) and isinstance(e[1], int) and o[1] == e[1]:
                continue
            if self.check(st.pc, bv(e[1], 8 * e[0]) != bv(o[1], 8 * o[0]))[0] is not False:
                raise Retry((nm, "mem", a, e[0]))
            self.side.append((f"{nm}: frame of {c.where(a)}", list(st.pc), bv(e[1], 8 * e[0]) == bv(o[1], 8 * o[0]), st))
        for nme in set(st.arr) | set(arr):
            if st.arr.get(nme, ()) != arr.get(nme, ()):
                if not (hav and nme in s2.base and s2.base.get(nme) is not st.base.get(nme)):
                    raise Unsupported(f"{nm} changes {nme} that its frame does not mention")
        for g, v in gh.items():
            v1 = st.ghost.get(g)
            if v1 is not v and not (isinstance(v, int) and isinstance(v1, int) and v == v1):
                if not (hav and s2.ghost.get(g) is not v1):
                    self.side.append((f"{nm}: ghost {g}", list(st.pc), v1 == v, st))
        for name, f in (spec.inv(c, st, n1) if spec.inv else []):
            self.side.append((f"{nm}: {name} is kept", list(st.pc), f, st))
        self.cut[nm] = self.cut.get(nm, 0) + 1
        st.dead = "round"
        return [st]


def dominators(succ):
    n = len(succ)
    pred = [[] for _ in range(n)]
    for b, ss in enumerate(succ):
        for s in ss:
            pred[s].append(b)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            if not pred[b]:
                continue
            d = set.intersection(*[dom[p] for p in pred[b]]) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    return dom


def dominates(dom, a, b):
    return a in dom[b]


def phi_step(fn, phi, latches):
    """The constant that every round adds to this loop variable, if that is all that happens to it."""
    defs = getattr(fn, "_defs", None)
    if defs is None:
        defs = fn._defs = {i[1]: i for b in fn.blocks for i in b if len(i) > 1 and isinstance(i[1], int)}
    s = None
    for l in latches:
        o = phi[3].get(l)
        if o is None:
            return None
        step = None
        if o[0] == "v":
            if o[1] == phi[1]:
                step = 0
            else:
                i = defs.get(o[1])
                if i is None:
                    return None
                if i[0] in ("add", "sub") and i[3] == ("v", phi[1]) and i[4][0] == "c" and i[4][1][0] == "i":
                    step = i[4][1][1] if i[0] == "add" else -i[4][1][1]
                elif i[0] == "add" and i[4] == ("v", phi[1]) and i[3][0] == "c" and i[3][1][0] == "i":
                    step = i[3][1][1]
                elif i[0] == "gep" and i[2] == ("v", phi[1]) and not i[4]:
                    step = i[3]
        if step is None:
            return None
        step &= (1 << phi[2].w) - 1
        if s is not None and s != step:
            return None
        s = step
    return s


# ---------------------------------------------------------------- units
class Ctx:
    """What a unit's precondition builds."""

    def __init__(self, mach, small=False):
        self.M, self.ex, self.img = mach, mach.ex, mach.img
        self.st = State()
        self.st.base = {}
        self.small_mode = small
        self.next = OBJ
        self.objs = {}
        self.vars = {}
        self.small = []
        self.rg = []
        self.arrs = {}
        self.watch = {}

    def var(self, name, w):
        v = self.vars[name] = z3.BitVec(name, w)
        return v

    def bvar(self, name):
        v = self.vars[name] = z3.Bool(name)
        return v

    def assume(self, *fs):
        for f in fs:
            self.st.pc.append(boolv(f))

    def keep_small(self, *fs):
        self.small.extend(fs)
        if self.small_mode:
            self.assume(*fs)

    def sizeof(self, cls):
        return self.img.val["size." + cls]

    def off(self, f):
        return self.img.val["off." + f]

    def vtable(self, cls):
        return self.img.sym[f"_ZTV{len(cls)}{cls}"] + 16

    def obj(self, name, cls=None, nbytes=None, **fields):
        """An object with arbitrary content except the fields given; -> address."""
        size = nbytes or self.sizeof(cls)
        a = self.next
        self.next += (size + 63) // 64 * 64 + 64
        self.st.objs.insert(0, (a, size, name))
        self.objs[name] = (a, size, cls)
        put = {}
        if cls is not None:
            vp = fields.pop("vptr", None)
            vp = self.vtable(vp or cls) if vp is None or isinstance(vp, str) else vp
            if vp:
                put[0] = (8, vp)
        for f, v in fields.items():
            o, n = self.M.field(cls, f)
            put[o] = (n, v)
        for f, (o, n) in self.M.fields(cls).items():
            if not any(po < o + n and o < po + pn for po, (pn, _) in put.items()):
                put[o] = (n, self.var(f"{name}.{f}", 8 * n))
        o = 0
        while o < size:
            if o in put:
                n, v = put[o]
                self.st.ov[a + o] = (n, norm(v if not isinstance(v, z3.BoolRef) else bv(v, 8 * n)))
                o += n
                continue
            n = 1
            for w in (8, 4, 2):
                if o % w == 0 and o + w <= size and not any(o < p < o + w for p in put):
                    n = w
                    break
            self.st.ov[a + o] = (n, self.var(f"{name}+{o}", 8 * n))
            o += n
        return a

    def fld(self, name, f, st=None):
        a, size, cls = self.objs[name]
        o, n = self.M.field(cls, f)
        return self.ex.ld(st or self.st, a + o, n)

    def addr(self, name, f=None):
        a, size, cls = self.objs[name]
        return a if f is None else a + self.M.field(cls, f)[0]

    def array(self, name, w):
        """A ghost array 32 bit -> w bits."""
        a = AS(name, 0, 0, 1 << 32, w)
        a.fn = z3.Function("A_" + name, z3.BitVecSort(32), z3.BitVecSort(w))
        self.arrs[name] = a
        return a

    def region(self, name, stride, count, fields):
        """`count` records in memory; fields: {offset: (bytes, array or value)} -> base address."""
        base = RGN + RSPAN * len(self.rg)
        r = Region(name, base, stride, count, fields)
        self.rg.append(r)
        return base

    def stack_array(self, name):
        """The function's local array (64 bytes or more) of bytes -> its array."""
        a = self.array(name, 8)
        self.region(name, 1, 64, {0: (1, a)})
        self.stack = self.rg[-1]
        return a

    def holds(self, st, f):
        f = norm(boolv(f))
        if isinstance(f, int):
            return bool(f)
        return self.ex.check(st.pc, z3.Not(f))[0] is False

    def where(self, a):
        for n, (b, s, cls) in self.objs.items():
            if b <= a < b + s:
                for f, (o, k) in self.M.fields(cls).items() if cls else ():
                    if o <= a - b < o + k:
                        return f"{n}.{f}"
                return f"{n}+{a - b}"
        for n, b in self.img.addr.items():
            if b <= a < b + self.img.size.get(n, 0):
                return n
        return hex(a)

    def havoc(self, st, name, f, val=None):
        a, size, cls = self.objs[name]
        o, n = self.M.field(cls, f)
        v = fresh(f"{name}.{f}", 8 * n)
        self.ex._put(st, a + o, n, v)
        return v

    def havoc_arr(self, st, as_):
        st.arr.pop(as_.name, None)
        f = z3.Function(f"A_{as_.name}!{fresh('h', 1)}", z3.BitVecSort(32), z3.BitVecSort(as_.w))
        st.base[as_.name] = f
        return f


class End:
    """One final state, as the postcondition sees it."""

    def __init__(self, c, st):
        self.c, self.st, self.ret = c, st, st.ret
        self.goals = []
        self.exp = {}
        self.exparr = {}
        self.loose = set()
        self.loosearr = set()

    def log(self, name=None):
        return [x for x in self.st.ghost.get("log", []) if name is None or x[0] == name]

    def case(self, cond):
        cond = z3.simplify(boolv(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        ex = self.c.ex
        if ex.check(self.st.pc, z3.Not(cond))[0] is False:
            return True
        if ex.check(self.st.pc, cond)[0] is False:
            return False
        raise Split(cond)

    def goal(self, name, f):
        self.goals.append((name, boolv(f)))

    def ret_is(self, v, w=32):
        self.goal("result", bv(self.ret, w) == bv(v, w))

    def set(self, name, f, v):
        a, size, cls = self.c.objs[name]
        o, n = self.c.M.field(cls, f)
        self.exp[a + o] = (n, v)

    def set_addr(self, a, n, v):
        self.exp[a] = (n, v)

    def any(self, name, f):
        a, size, cls = self.c.objs[name]
        o, n = self.c.M.field(cls, f)
        self.loose.update(range(a + o, a + o + n))

    def fld(self, name, f):
        return self.c.fld(name, f, self.st)

    def arr(self, as_, fn):
        """fn(k) -> the element that must be at k, for every k."""
        self.exparr[as_.name] = (as_, fn)

    def loose_arr(self, name):
        self.loosearr.add(name)

    def old(self, as_, k):
        return self.c.st.mem(as_, k)

    def calls(self, *want):
        """The calls of callees under contract, in order: (name, arg, ..); None: any argument."""
        got = self.log()
        names = [g[0] for g in got]
        self.goal("calls " + (", ".join(w[0] for w in want) or "none") + (f" (made: {', '.join(names) or 'none'})" if names != [w[0] for w in want] else ""),
                  names == [w[0] for w in want])
        if names == [w[0] for w in want]:
            for i, (g, w) in enumerate(zip(got, want)):
                for j, x in enumerate(w[1:]):
                    if x is None:
                        continue
                    y = g[1][j]
                    ww = x.size() if isinstance(x, z3.BitVecRef) else y.size() if isinstance(y, z3.BitVecRef) else 64
                    if isinstance(y, z3.BitVecRef) and y.size() < ww:
                        y = z3.ZeroExt(ww - y.size(), y)
                    if isinstance(x, z3.BitVecRef) and isinstance(y, z3.BitVecRef) and y.size() > ww:
                        y = z3.Extract(ww - 1, 0, y)
                    if isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef):
                        self.goal(f"call {i} {w[0]} argument {j}", boolv(x) == boolv(y))
                    else:
                        self.goal(f"call {i} {w[0]} argument {j}", bv(y, ww) == bv(x, ww))

    def finish(self):
        c, st = self.c, self.st
        done = set()
        for a, e in list(st.ov.items()):
            if a >= EXTG:
                continue
            if a in done:
                continue
            n = e[0]
            want = self.exp.get(a)
            if want is not None:
                continue
            if any(a + i in self.loose for i in range(n)):
                continue
            hit = [b for b, (m, _) in self.exp.items() if b < a + n and a < b + m]
            if hit:
                continue
            old = c.st.ov.get(a)
            if old is e or old is not None and old[0] == n and old[1] is e[1]:
                continue
            try:
                o = c.ex.ld(c.st, a, n)
            except Crash:
                continue
            if isinstance(o, int) and isinstance(e[1], int) and o == e[1]:
                continue
            self.goals.append((f"{c.where(a)} is unchanged", bv(e[1], 8 * n) == bv(o, 8 * n)))
        for a, (n, v) in self.exp.items():
            self.goals.append((c.where(a), bv(c.ex.ld(st, a, n), 8 * n) == bv(v, 8 * n)))
        for nm, as_ in c.arrs.items():
            k = z3.BitVec("k_" + nm, 32)
            if nm in self.exparr:
                self.goals.append((f"{nm} (every index)", st.mem(as_, k) == bv(self.exparr[nm][1](k), as_.w)))
            elif nm in self.loosearr:
                continue
            elif st.arr.get(nm) or nm in st.base:
                self.goals.append((f"{nm} is unchanged (every index)", st.mem(as_, k) == c.st.mem(as_, k)))
        return self.goals


class Machine:
    """The compiled code and its image; offsets of the fields the units talk about."""

    def __init__(self, sim="mos6502", includes=(), fields=(), classes=(), tag="core", args=(), pre="", setup="", probes=None):
        p = dict(harness.BASE_PROBES)
        self._f = {}
        for cls in classes:
            p["=size." + cls] = f"sizeof({cls})"
        for cls, f in fields:
            p[f"=off.{cls}.{f}"] = f"offsetof({cls}, {f})"
            p[f"=len.{cls}.{f}"] = f"sizeof((({cls}*)0)->{f})"
        p.update(probes or {})
        src = harness.source(["globals.h", "utils.h", "appcl.h", "memcl.h", "itsrccl.h", "stackcl.h", *includes],
                             harness.SIM_SETUP + setup, p, harness.SIM_PRE + pre)
        self.bc, self.exe = build.build(sim, src, "fn_" + tag)
        self.img = harness.Image(self.exe, args)
        self.ex = FnExec(Module(self.bc), self.img)
        for cls, f in fields:
            self._f.setdefault(cls, {})[f] = (self.img.val[f"off.{cls}.{f}"], self.img.val[f"len.{cls}.{f}"])

    parents = {}

    def fields(self, cls):
        r = {}
        while cls:
            r.update(self._f.get(cls, {}))
            cls = self.parents.get(cls)
        return r

    def field(self, cls, f):
        return self.fields(cls)[f]


class Unit:
    def __init__(self, name, func, pre, post, callees=(), loops=None, args=None, bounded=False, dead=None):
        self.name, self.func, self.pre, self.post = name, func, pre, post
        self.callees, self.loops, self.bounded, self.dead = callees, loops or {}, bounded, dead


class Lemma:
    """A fact about the contracts themselves."""

    def __init__(self, name, goals):
        self.name, self.goals = name, goals


def verify_lemma(M, u):
    ex = M.ex
    fails, und, n = [], [], 0
    for nm, g in u.goals:
        r, m = ex.check([], z3.Not(g), timeout=120000)
        if r is False:
            n += 1
        elif r is None:
            und.append(nm)
        else:
            fails.append(dict(obligation=nm, text=f"the contracts do not give: {nm}: {str(m)[:300]}"))
    return dict(check.unit_result(ex, u.name), obligations=len(u.goals), discharged=n, paths=0, fails=fails, covers=0,
                **({"undecided": "; ".join(und)} if und else {}))


def callee(rx, name, f=None, w=32):
    """A callee contract: every call is logged; f(c, st, *args) -> result (default: arbitrary of w bits, None: void)."""
    return (re.compile(rx), name, f, w)


def const_ret(v):
    return lambda c, st, *a: v


def run_unit(M, u, small=False):
    ex = M.ex
    ex.contracts, ex.rx_contracts, ex._hc = {}, [], {}
    ex.slot_of = {}
    ex.side = []
    ex.cut = {}
    ex.max_visits = 40
    c = Ctx(M, small)
    args = u.pre(c)
    ex.ctx = c
    ex.rgns = c.rg
    ex.loop_specs = {} if small else u.loops

    def mk(name, f, w):
        def h(ex, st, a):
            if f is None:
                r = fresh("ret_" + name, w) if w else 0
            else:
                r = f(c, st, *a)
                if r is NOTMINE:
                    return r
            nm = name
            if "|" in name:
                nm, r = r       # one of several roles: (role, result)
            st.ghost.setdefault("log", []).append((nm, tuple(a), r if not isinstance(r, list) else None))
            return r
        return h
    for rx, name, f, w in u.callees:
        ex.rx_contracts.append((rx, mk(name, f, w)))
    for rx in (r"cl_console_base::(dd_printf|debug|dd_color|dd_cprintf)\(",):
        ex.rx_contracts.append((re.compile(rx), lambda ex, st, a: 0))
    ok, m = ex.check(c.st.pc)
    if ok is not True:
        raise Unsupported("the precondition excludes everything")
    st = c.st.fork()
    ex.start(st, u.func, args)
    return c, ex.run(st)


def verify(M, u):
    """-> result dict of one unit."""
    ex = M.ex
    name = u.name
    nob = ndis = 0
    fails = []
    res = {}
    try:
        ex.dropped = set()
        while True:
            try:
                c, ends = run_unit(M, u)
                break
            except Retry as r:
                if len(r.args[0]) > 1 and r.args[0][1] == "mem":
                    # what was guessed before this memory was known to change was judged on wrong states
                    ex.dropped = {d for d in ex.dropped if d[1] == "mem"}
                ex.dropped.add(r.args[0])
        todo = []
        npaths = len(ends)
        for st in ends:
            if st.dead == "round" or st.dead == "infeasible":
                continue
            if st.dead:
                if u.dead and re.search(u.dead, st.dead):
                    continue
                todo.append((st, "runs to its end (" + st.dead + ")", list(st.pc), z3.BoolVal(False)))
                continue
            work = [st]
            while work:
                s = work.pop()
                e = End(c, s)
                try:
                    u.post(c, e)
                except Split as sp:
                    for b in (sp.cond, z3.Not(sp.cond)):
                        s2 = s.fork()
                        s2.ret, s2.base = s.ret, s.base
                        s2.pc.append(b)
                        work.append(s2)
                    if len(work) > 200:
                        raise Unsupported("too many cases")
                    continue
                for nm, g in e.finish():
                    todo.append((s, nm, list(s.pc), g))
        for nm, pc, g, s in ex.side:
            todo.append((s, nm, pc, boolv(g)))
        ex.side = []
        if not any(not st.dead for st in ends) and not fails and not any(x[1].startswith("runs to") for x in todo):
            res["undecided"] = "no path reaches the end"
        und = []
        for s, nm, pc, g in todo:
            nob += 1
            g = z3.simplify(g)
            if z3.is_true(g):
                ndis += 1
                continue
            r, m = prove(ex, pc, g)
            if r is False:
                ndis += 1
            elif r is None:
                und.append(f"{nm}: solver gave up ({m})")
            else:
                fails.append(dict(obligation=nm, st=s, model=m, text=describe(c, s, m, nm)))
                if len(fails) > 8:
                    break
        if und:
            res["undecided"] = "; ".join(und[:3])
        if fails:
            fails = refine(M, u, c, fails)
    except Unsupported as e:
        res["undecided"] = str(e)
        try:
            f2, ok = bounded(M, u)
        except Unsupported as e2:
            f2, ok = [], False
            res["undecided"] += " / bounded: " + str(e2)
        except Exception as e2:
            f2, ok = [], False
            res["undecided"] += f" / bounded: {type(e2).__name__} {e2}"
        fails = f2
        if ok and not fails:
            res["bounded"] = "within small sizes only: " + res.pop("undecided")
    except Exception:
        res["undecided"] = traceback.format_exc()[-3500:]
    for f in fails:
        f.pop("st", None)
        f.pop("model", None)
    res.update(check.unit_result(ex, name), obligations=nob, discharged=ndis, paths=locals().get("npaths", 0), fails=fails, covers=1,
               sample=dict(unit=name, function=u.func, obligations=nob))
    if u.bounded:
        res["bounded"] = res.get("bounded") or u.bounded
    return res


HARD = (z3.Z3_OP_BMUL, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV)
_hard = {}


def hard(e):
    """Does the formula multiply or divide by something that is not a constant?"""
    k = e.get_id()
    r = _hard.get(k)
    if r is None:
        r = z3.is_app(e) and (e.decl().kind() in HARD and sum(not z3.is_bv_value(x) for x in e.children()) > 1 or any(hard(x) for x in e.children()))
        _hard[k] = (r, e)
        return r
    return r[0]


def prove(ex, pc, g):
    """Is g implied? First without the hypotheses that need arithmetic the solver is slow at (fewer hypotheses: sound)."""
    easy = [f for f in pc if not hard(f)]
    if len(easy) < len(pc) and not hard(g):
        r, m = ex.check(easy, z3.Not(g), timeout=10000)
        if r is False:
            return r, m
    return ex.check(pc, z3.Not(g), timeout=60000)


def describe(c, s, m, nm):
    vs = []
    for n, v in c.vars.items():
        x = m.eval(v)
        if z3.is_bv_value(x):
            vs.append(f"{n}={x.as_long():#x}")
        elif z3.is_true(x) or z3.is_false(x):
            vs.append(f"{n}={x}")
    calls = " ".join(f"{n}" for n, a, r in s.ghost.get("log", []))
    return f"{nm}: counterexample {' '.join(vs)[:600]}" + (f"; calls {calls}" if calls else "")


def bounded(M, u):
    """The function with its loops unrolled over small objects: -> (violations replayed or found, completed)."""
    fails = []
    c, ends = run_unit(M, u, small=True)
    ex = M.ex
    side = list(ex.side)
    for st in ends:
        if st.dead:
            if st.dead == "infeasible" or u.dead and re.search(u.dead, st.dead):
                continue
            fails.append(dict(obligation="runs to its end (" + st.dead + ")", st=st, model=ex.check(st.pc)[1]))
            continue
        work = [st]
        while work:
            s = work.pop()
            e = End(c, s)
            try:
                u.post(c, e)
            except Split as sp:
                for b in (sp.cond, z3.Not(sp.cond)):
                    s2 = s.fork()
                    s2.ret, s2.base = s.ret, s.base
                    s2.pc.append(b)
                    work.append(s2)
                continue
            for nm, g in e.finish():
                g = z3.simplify(g)
                if z3.is_true(g):
                    continue
                r, m = ex.check(s.pc, z3.Not(g), *c.small, timeout=30000)
                if r:
                    fails.append(dict(obligation=nm, st=s, model=m))
                    break
        if len(fails) > 4:
            break
    for nm, pc, g, s in side:
        r, m = ex.check(pc, z3.Not(boolv(g)), timeout=30000)
        if r:
            fails.append(dict(obligation=nm, st=s, model=m))
    out = []
    for f in fails[:4]:
        f["text"] = describe(c, f["st"], f["model"], f["obligation"])
        f["confirmed"] = replay(M, u, c, f)
        out.append(f)
    return out, True


def refine(M, u, c, fails):
    """Try to show every failed obligation on the real code."""
    out = []
    for f in fails:
        s = f["st"]
        try:
            if not u.loops and not f["st"].ghost.get("hdr"):
                # prefer a small counterexample
                f["confirmed"] = replay(M, u, c, f)
        except Unsupported as e:
            f["why_not_replayed"] = str(e)
        out.append(f)
    if not any(f.get("confirmed") for f in out):
        try:
            b, _ = bounded(M, u)
            conf = [f for f in b if f.get("confirmed")]
            for f in conf:
                f["text"] += "  (found with small sizes after the unbounded obligation failed: " + out[0]["obligation"] + ")"
            out = conf + out
        except Unsupported as e:
            out[0]["why_not_replayed"] = str(e)
        except Exception as e:
            out[0]["why_not_replayed"] = f"{type(e).__name__}: {e}"
    return out


LIM = 4096


def replay(M, u, c, f):
    """Run the real function natively on the counterexample; callees under contract answer from the model."""
    ex, img = M.ex, M.img
    s, m = f["st"], f["model"]
    ok, m2 = ex.check([*s.pc], *c.small, timeout=20000)
    goal = None

    def ev(x, w=64):
        if isinstance(x, int):
            return x
        if isinstance(x, z3.BoolRef):
            return int(z3.is_true(m.eval(x, model_completion=True)))
        return m.eval(x, model_completion=True).as_long()
    rp = harness.Replay(img)
    lo = min(a for a, _, _ in c.objs.values()) if c.objs else OBJ
    rp.map(OBJ, (c.next - OBJ + 4095) // 4096 * 4096 + 4096)
    mem = {}
    for a, (n, v) in c.st.ov.items():
        rp.poke(a, n, ev(v))
    regs = []
    for r in c.rg:
        cnt = ev(r.count)
        if cnt > LIM:
            raise Unsupported(f"{r.name} has {cnt} elements in the counterexample")
        nb = (cnt * r.stride + 4095) // 4096 * 4096 + 4096
        rp.map(r.base, nb)
        for i in range(cnt):
            for o, (n, what) in r.fields.items():
                if isinstance(what, AS):
                    v = ev(c.st.mem(what, i))
                elif callable(what):
                    v = ev(what(c.st, i))
                else:
                    v = ev(what)
                if v:
                    rp.poke(r.base + i * r.stride + o, n, v)
        regs.append((r, cnt))
    log = s.ghost.get("log", [])
    stubs = {}
    for rx, name, fn, w in u.callees:
        for mn, dn in M.ex.dem.items():
            if rx.match(dn) and mn in img.sym and mn in M.ex.m.fns and not M.ex.m.fns[mn].decl:
                k = stubs.setdefault(name, len(set(stubs.values())))
                for x in name.split("|"):
                    stubs[x] = k
                rp.add(f"stub {img.sym[mn]:x} {k:x}")
    for name, a, r in log:
        if r is None:
            raise Unsupported("a callee with several outcomes")
        if name not in stubs:
            raise Unsupported("a callee that is not in the program: " + name)
        rp.add(f"script {stubs[name]:x} {ev(r) if r is not None else 0:x}")
    start = M.ex.fn(u.func)
    # call
    args = [ev(x) for x in u._args(c)] if hasattr(u, "_args") else None
    args = [ev(x) for x in c.args]
    rp.call(img.sym[start.name], args)
    peeks = []
    for nm, (a, sz, cls) in c.objs.items():
        for x, (n, v) in sorted(s.ov.items()):
            if a <= x < a + sz:
                peeks.append((x, n, ev(v)))
    for r, cnt in regs:
        for i in range(cnt):
            for o, (n, what) in r.fields.items():
                if isinstance(what, AS):
                    peeks.append((r.base + i * r.stride + o, n, ev(s.mem(what, i))))
    for x, n, v in peeks:
        rp.peek(x, n)
    rets, mems = rp.run()
    if s.dead:
        return rets is None and "ended the program" in str(mems) or None
    if rets is None or not rets:
        return False
    bad = [(hex(x), v, g) for (x, n, v), g in zip(peeks, mems) if v != g and not (v >= FHEAP)]
    if bad or len(mems) != len(peeks):
        f["replay_note"] = f"memory differs: {bad[:3]}"
        return False
    nlog = rp.logs
    if len(nlog) != len(log):
        f["replay_note"] = f"calls differ: {len(nlog)} {len(log)}"
        return False
    for (k, na), (name, a, r) in zip(nlog, log):
        if stubs[name] != k:
            return False
        for x, y in zip(na, a):
            if y is None:
                continue
            w = y.size() if isinstance(y, z3.BitVecRef) else 64
            y = ev(y)
            if y < FHEAP and (x ^ y) & ((1 << min(w, 32 if y < 1 << 32 else 64)) - 1):
                return False
    if s.ret is not None:
        w = s.ret.size() if isinstance(s.ret, z3.BitVecRef) else 1 if isinstance(s.ret, z3.BoolRef) else 32
        if (rets[0] ^ ev(s.ret)) & ((1 << w) - 1) and ev(s.ret) < FHEAP:
            f["replay_note"] = f"result differs {rets[0]:#x} {ev(s.ret):#x}"
            return False
    return True


_M = None
_UN = None


def _work(i):
    u = _UN[i]
    t = time.time()
    try:
        r = verify_lemma(_M, u) if isinstance(u, Lemma) else verify(_M, u)
    except Exception:
        r = dict(unit=u.name, undecided=traceback.format_exc()[-800:])
    r["secs"] = time.time() - t
    return r


def run(rep, mach, units, only=None):
    global _M, _UN
    _M = mach() if callable(mach) else mach
    _UN = [u for u in units(_M) if not only or any(u.name.startswith(o) for o in only)]
    rs = check.pmap(_work, list(range(len(_UN))))
    for r in rs:
        rep.merge(r)
    return rs
