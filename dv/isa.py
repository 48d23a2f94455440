"""Instruction-set properties: for every opcode, the real exec_inst against the written ISA.

For each opcode (with its prefixes) the machine is the constructed object graph with every register,
every memory element and the listed bookkeeping arbitrary; the real fetch/dispatch/execute code runs
symbolically from exec_inst; and on every path the final registers, memory and return code must equal
the specification, and every other byte of the machine must be unchanged (frame).
"""
import os
import random
import time

import z3

from . import build, harness, memview
from .check import Report, unit_result, pmap
from .llvm import Module, Unsupported
from .sym import Exec, State, CellPtr, CondPtr, NOTMINE, bv, boolv, norm, fresh

_TRUE = z3.BoolVal(True)


class Spec:
    """The specification's view of the machine: registers, memories, a PC that moves."""

    def __init__(self, cpu, regs, memread):
        self.cpu = cpu
        self.r = dict(regs)
        self.w = {}            # memory -> list of (cond, idx, val)
        self.memread = memread
        self.care = {}         # register -> mask (z3 or int) of bits the ISA defines
        self.only = []         # the statement speaks only when all of these hold
        self.any_mem = set()
        self.mem_mask = {}     # (memory, index) -> bits the ISA defines
        self.ticks = None      # machine cycles the instruction takes (None: not judged)

    def mmask(self, n, k, w):
        m = z3.BitVecVal(-1, w)
        for (x, i), v in self.mem_mask.items():
            if x == n:
                m = z3.If(k == i, bv(v, w), m)
        return m

    def __getitem__(self, k):
        return self.r[k]

    def __setitem__(self, k, v):
        w = self.cpu.regs[k][1]
        if isinstance(v, int):
            v = z3.BitVecVal(v, w)
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        assert v.size() == w, (k, v.size(), w)
        self.r[k] = z3.simplify(v)

    def rd(self, m, i):
        i = ext(i, 32)
        r = self.memread(m, i)
        for c, j, v in self.w.get(m, ()):
            r = z3.If(z3.And(c, i == j), v, r)
        return z3.simplify(r)

    def wr(self, m, i, v, cond=None):
        c = _TRUE if cond is None else cond
        w = self.cpu.memw.get(m, 8)
        if isinstance(v, int):
            v = z3.BitVecVal(v, w)
        self.w.setdefault(m, []).append((c, z3.simplify(ext(i, 32)), z3.simplify(v)))

    def fork_if(self, c, then, els=None):
        """Run `then(self)` where c holds (and els elsewhere), merging registers and writes."""
        a = self.clone()
        then(a)
        b = self.clone()
        if els:
            els(b)
        if self.ticks is not None and a.ticks is not b.ticks:
            self.ticks = z3.If(c, bv(a.ticks, 32), bv(b.ticks, 32))
        for k in self.r:
            self.r[k] = a.r[k] if a.r[k] is b.r[k] else z3.simplify(z3.If(c, a.r[k], b.r[k]))
        for s, cc in ((a, c), (b, z3.Not(c))):
            for m, ws in s.w.items():
                for (x, i, v) in ws[s._n.get(m, 0):]:
                    self.w.setdefault(m, []).append((z3.simplify(z3.And(cc, x)), i, v))
            for k, m in s.care.items():
                if k in self.care and self.care[k] is m:
                    continue
                w = self.cpu.regs[k][1]
                old = self.care.get(k, z3.BitVecVal(-1, w))
                self.care[k] = z3.If(cc, bv(m, w), bv(old, w))
            for o in s.only[s._no:]:
                self.only.append(z3.Implies(cc, o))

    def clone(self):
        s = Spec(self.cpu, self.r, self.memread)
        s.w = {k: list(v) for k, v in self.w.items()}
        s._n = {k: len(v) for k, v in self.w.items()}
        s.care = dict(self.care)
        s.mem_mask = self.mem_mask
        s.only = list(self.only)
        s.ticks = self.ticks
        s._no = len(self.only)
        return s


def ext(v, w):
    """Zero-extend or truncate to w bits."""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    n = v.size()
    return v if n == w else z3.ZeroExt(w - n, v) if n < w else z3.Extract(w - 1, 0, v)


def sx(v, w):
    return v if v.size() == w else z3.SignExt(w - v.size(), v)


def cat(*a):
    return z3.Concat(*a)


def bit(v, i):
    return z3.Extract(i, i, v)


def tst(v, i):
    return z3.Extract(i, i, v) == 1


def b1(c):
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def bn(c, w):
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def parity_even(v):
    x = bit(v, 0)
    for i in range(1, v.size()):
        x = x ^ bit(v, i)
    return x == 0


class CPU:
    """Base of the per-CPU descriptions in dv/cpus."""
    sim = name = cls = ""
    includes = []
    args = []
    
    regs = {}
    free = {}
    mems = {}
    memw = {}
    reserved = {}          # memory -> address ranges that are not there
    code = "rom"
    entry = None
    ret_ok = 0
    setup_extra = ""
    pre = ""
    pcreg = "PC"
    watch = {"state": "u->state", "stack_ops": "u->stack_ops", "PCp": "u->PC"}
    assumptions = []

    def __init__(self):
        pass

    # -- hooks
    def entry_of(self, label):
        return self.entry

    def extra_goals(self, M, s, S):
        """[(name, formula)] over the ghosts a contract left in the final state."""
        return []

    def opcodes(self):
        return [(f"{i:02x}", [i]) for i in range(256)]

    def spec(self, S, label, ops):
        raise NotImplementedError

    def pre_state(self, M, st, regs):
        """Extra preconditions on the symbolic machine."""

    def contracts(self, M, ex):
        pass

    def code_addr(self, regs, k):
        w = regs[self.pcreg].size()
        return ext(regs[self.pcreg] + k, 32)

    def add_views(self, M):
        for n, e in self.mems.items():
            M.mem[n] = memview.add_as(M.ex, n, M.img.val["as." + n])

    def probes(self):
        p = dict(harness.BASE_PROBES)
        p["=u"] = "u"
        for n, (e, w) in self.regs.items():
            p["r." + n] = e
        for n, e in self.free.items():
            p["f." + n] = e
        for n, e in self.watch.items():
            p["w." + n] = e
        for n, e in self.mems.items():
            p["=as." + n] = f"(cl_address_space*)({e})"
        p["f.vc"] = "u->vc"
        p["f.inst_ticks"] = "u->inst_ticks"
        p["f.hist"] = "u->errors"
        return p


class Pat(str):
    """An opcode word with operand fields (letters); seed fixes the fields, otherwise they are arbitrary."""
    seed = None

    def __new__(cls, s, seed=None):
        o = str.__new__(cls, s)
        o.seed = seed
        return o


def pattern(p):
    """"0011KKKKddddKKKK" -> (the word, {letter: field}); x is a bit of no meaning."""
    n = {c: p.count(c) for c in p if c not in "01"}
    seed = getattr(p, "seed", None)
    rnd = random.Random(seed)
    f = {c: z3.BitVec("op_" + c, w) if seed is None else z3.BitVecVal(rnd.getrandbits(w), w) for c, w in sorted(n.items())}
    at = dict(n)
    bits = []
    for c in p:
        if c in "01":
            bits.append(z3.BitVecVal(int(c), 1))
        else:
            at[c] -= 1
            bits.append(z3.Extract(at[c], at[c], f[c]))
    w = cat(*bits) if len(bits) > 1 else bits[0]
    return (w if n else z3.simplify(w).as_long()), f


class Mach:
    def __init__(self, cpu):
        self.cpu = cpu
        src = harness.source(["globals.h", "utils.h", "appcl.h", "memcl.h", "itsrccl.h", "stackcl.h", "glob.h", *cpu.includes],
                             harness.SIM_SETUP + f"  u= ({cpu.cls}*)sim->uc;\n" + cpu.setup_extra,
                             cpu.probes(), harness.SIM_PRE + f"static {cpu.cls} *u;\n" + cpu.pre)
        self.bc, self.exe = build.build(cpu.sim, src, "isa_" + cpu.name.replace(" ", "_"))
        self.img = harness.Image(self.exe, cpu.args)
        self.ex = Exec(Module(self.bc), self.img)
        self.u = self.img.val["u"]
        self.mem = {}
        cpu.add_views(self)
        memview.install(self.ex)
        std_contracts(self)
        cpu.contracts(self, self.ex)
        self.watch = [(self.img.addr["w." + n], self.img.size["w." + n]) for n in cpu.watch]
        self.free = [(self.img.addr["f." + n], self.img.size["f." + n]) for n in list(cpu.free) + ["vc", "inst_ticks", "hist"]]

    def initial(self, ops, havoc=()):
        """-> (state, regs). havoc: (address, size) of auxiliary state to leave arbitrary."""
        st = State()
        for n in self.cpu.free:
            a, sz = self.img.addr["f." + n], self.img.size["f." + n]
            if sz in (1, 2, 4):
                self.ex._put(st, a, sz, z3.BitVec("f_" + n, 8 * sz))
        for a, sz in havoc:
            self.ex._put(st, a, sz, z3.BitVec(f"aux_{a:x}", 8 * sz))
        regs = {}
        for n, (e, w) in self.cpu.regs.items():
            a, sz = self.img.addr["r." + n], self.img.size["r." + n]
            v = z3.BitVec("r_" + n, w)
            regs[n] = v
            if w == 1:
                self.ex._put(st, a, sz, z3.ZeroExt(8 * sz - 1, v))
            elif 8 * sz > w:
                self.ex._put(st, a, sz, z3.ZeroExt(8 * sz - w, v))
            else:
                assert 8 * sz == w, (n, sz, w)
                self.ex._put(st, a, sz, v)
        for k, op in enumerate(ops):
            if isinstance(op, str):
                op = pattern(op)[0]
            if op is not None:
                m = self.mem[self.cpu.code]
                st.setmem(m, self.cpu.code_addr(regs, k), bv(op, m.w))
        self.cpu.pre_state(self, st, regs)
        return st, regs

    def final(self, st, n):
        a, sz = self.img.addr["r." + n], self.img.size["r." + n]
        return bv(self.ex.ld(st, a, sz), 8 * sz)

    def strict(self, a, n):
        """Must the bytes at `a` be unchanged (as opposed to auxiliary state)?"""
        for b, sz in self.watch:
            if a < b + sz and b < a + n:
                return True
        return n == 8 and isinstance(self.ex.ld(State(), a, 8), int) and self.ex.ld(State(), a, 8) >= 0x1000

    def is_free(self, a, n):
        for b, sz in self.free:
            if b <= a and a + n <= b + sz:
                return True
        return False


def std_contracts(M):
    ex = M.ex

    def tick(ex, st, a):
        st.ghost["ticks"] = norm(bv(st.ghost.get("ticks", 0), 32) + bv(a[1], 32))
        return 0

    def nop(ex, st, a):
        return 0

    ex.contract(r"^cl_uc::do_brk\(\)$", nop)
    ex.contract(r"^cl_uc::tick\(int\)$", tick)
    ex.contract(r"^cl_uc::stack_(write|read)\(", nop)
    ex.contract(r"^cl_uc::(error|write_register_hook)\(", nop)


def init_memread(M, st):
    return lambda m, i: bv(st.mem(M.mem[m], i), M.mem[m].w)


def goals_of(M, st0, s, regs, S):
    """[(name, formula, (kind, what))] of one finished path."""
    out = []
    cpu, ex = M.cpu, M.ex
    only = z3.And(*S.only) if S.only else _TRUE
    for n, (e, w) in cpu.regs.items():
        f = M.final(s, n)
        want = ext(S.r[n], f.size()) if w > 1 else z3.ZeroExt(f.size() - 1, S.r[n])
        g = f == want
        if n in S.care:
            m = ext(bv(S.care[n], w), f.size())
            g = (f & m) == (want & m)
        out.append((f"register {n}", z3.Implies(only, g), ("reg", n)))
    for n, m in M.mem.items():
        if m.bits is not None or n in S.any_mem:
            continue
        impl, spec = s.arr.get(m.name, ()), S.w.get(n, ())
        base = st0.arr.get(m.name, ())
        if len(impl) == len(base) and not spec:
            continue
        k = z3.BitVec("k_" + n, 32)
        have = bv(s.mem(m, k), m.w)
        want = S.rd(n, k)
        if S.mem_mask:
            mk = S.mmask(n, k, m.w)
            have, want = have & mk, want & mk
        out.append((f"memory {n} (every address)", z3.Implies(only, have == want), ("mem", n)))
    if S.ticks is not None:
        out.append(("machine cycles", z3.Implies(only, bv(s.ghost.get("ticks", 0), 32) == bv(S.ticks, 32)), ("ticks",)))
    rng = {M.img.addr["r." + n]: M.img.size["r." + n] for n in cpu.regs}
    for a in sorted(s.ov):
        n, v = s.ov[a]
        if a >= 0x790000000000 or a in rng or M.is_free(a, n):
            continue
        if any(b <= a and a + n <= b + z for b, z in rng.items()):
            continue
        # unchanged?
        old = ex.ld(st0, a, n)
        if isinstance(v, (CellPtr, CondPtr)):
            out.append((f"frame {where(M, a)}", z3.BoolVal(False), ("frame", a, n)))
            continue
        if isinstance(v, z3.FPRef):
            v = z3.fpToIEEEBV(v)
        if isinstance(old, int) and isinstance(v, int):
            if old == v:
                continue
            out.append((f"frame {where(M, a)} unchanged", z3.BoolVal(False), ("frame", a, n)))
        else:
            out.append((f"frame {where(M, a)} unchanged", z3.Implies(only, bv(v, 8 * n) == bv(old, 8 * n)), ("frame", a, n)))
    for n, g in cpu.extra_goals(M, s, S):
        out.append((n, z3.Implies(only, g), ("ghost",)))
    if cpu.ret_ok is not None:
        out.append(("return code", z3.Implies(only, bv(s.ret, 32) == bv(S.ret if hasattr(S, "ret") else cpu.ret_ok, 32)), ("ret",)))
    return out


def where(M, a):
    u = M.u
    if u <= a < u + 0x10000:
        return f"{M.cpu.cls}+{a - u:#x}"
    for sym in (M.img.sym_at.get(a) or []):
        return sym
    return f"{M.img.rel(a)}"


def verify_op(M, label, ops):
    """Frame: a byte outside the machine model that changes is auxiliary state. It is not a violation
    by itself; the proof is redone with its initial value arbitrary, until nothing new is written."""
    havoc = []
    while True:
        r = verify_once(M, label, ops, havoc)
        if r is None or not r.get("aux"):
            if r is not None and havoc:
                r["aux_state"] = [where(M, a) for a, n in havoc]
            return r
        new = [x for x in r["aux"] if x not in havoc]
        if not new or len(havoc) > 40:
            r["undecided"] = "auxiliary state does not settle"
            return r
        havoc += new


def verify_once(M, label, ops, havoc):
    ex, cpu = M.ex, M.cpu
    unit = f"{cpu.name}:{label}"
    st0, regs = M.initial(ops, havoc)
    S = Spec(cpu, regs, init_memread(M, st0))
    S.label = label
    if cpu.spec(S, label, ops) is False:
        return None
    S_any = S
    st = st0.fork()
    for o in S.only:          # formulas over the initial state: the precondition
        o = z3.simplify(o)
        if not z3.is_true(o):
            st.pc.append(o)
    res = unit_result(ex, unit, obligations=0, discharged=0, paths=0, fails=[], covers=0)
    try:
        ex.start(st, cpu.entry_of(label), [M.u])
        ends = ex.run(st)
    except Unsupported as e:
        res.update(unit_result(ex, unit), undecided=str(e))
        return res
    nob = ndis = 0
    fails = []
    only = z3.And(*S.only) if S.only else _TRUE
    hit = False
    for s in ends:
        if s.dead is not None:
            nob += 1
            ok, m = ex.check(s.pc, only)
            if ok is False:
                ndis += 1
                continue
            fails.append(dict(obligation="runs to its end: " + s.dead, **confirm(M, st0, regs, S, m, None, ops)))
            continue
        gs = goals_of(M, st0, s, regs, S)
        aux = []
        for g in gs:
            if g[2][0] == "frame" and not M.strict(g[2][1], g[2][2]) and ex.check(s.pc, z3.Not(g[1]))[0] is not False:
                aux.append(g)
        if aux:
            new = {(g[2][1], g[2][2]) for g in aux} - set(havoc)
            if new:
                ex.side = []
                return dict(aux=sorted(new), unit=unit)
            gs = [g for g in gs if g not in aux]
        nob += len(gs)
        if not hit:
            ok, m = ex.check(s.pc, only)
            hit = hit or ok is not False
        todo = [g for g in gs if not z3.is_true(z3.simplify(g[1]))]
        if not todo:
            ndis += len(gs)
            continue
        r, m = ex.check(s.pc, z3.Not(z3.And(*[g[1] for g in todo])))
        if r is False:
            ndis += len(gs)
            continue
        ndis += len(gs) - len(todo)
        for name, g, what in todo:
            r, m = ex.check(s.pc, z3.Not(g), timeout=60000)
            if r is False:
                ndis += 1
            elif r is None:
                res["undecided"] = f"{name}: solver gave up ({m})"
            else:
                fails.append(dict(obligation=name, **confirm(M, st0, regs, S, m, what, ops)))
                if len(fails) > 6:
                    break
        if len(fails) > 6:
            break
    for name, s, cond in ex.side:
        nob += 1
        r, m = ex.check(s.pc, z3.Not(cond))
        if r is False:
            ndis += 1
        else:
            fails.append(dict(obligation=name, **confirm(M, st0, regs, S, m, None, ops)))
    ex.side = []
    res.update(unit_result(ex, unit), obligations=nob, discharged=ndis, paths=len(ends), fails=fails,
               covers=int(hit))
    if not hit and not fails:
        res["undecided"] = "the precondition excludes everything"
    return res


def concretise(M, st0, regs, m):
    """Model -> register values and memory contents."""
    rv = {n: m.eval(r, model_completion=True).as_long() for n, r in regs.items()}
    mv = {}
    known = {d.name() for d in m.decls()}
    for n, a in M.mem.items():
        if a.bits is not None:
            continue
        fi = m[a.fn] if a.fn.name() in known else None
        ents, dflt = {}, 0
        if fi is not None:
            if isinstance(fi, z3.FuncInterp):
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    ents[e.arg_value(0).as_long()] = e.value().as_long()
                try:
                    dflt = fi.else_value().as_long()
                except Exception:
                    dflt = 0
        for c, i, v in st0.arr.get(a.name, ()):
            i = i if isinstance(i, int) else m.eval(i, model_completion=True).as_long()
            v = v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()
            ents[i] = v
        mv[n] = (ents, dflt)
    return rv, mv


def poke_state(M, rp, rv, mv):
    for n, v in rv.items():
        rp.poke(M.img.addr["r." + n], M.img.size["r." + n], v)
    for n, (ents, dflt) in mv.items():
        a = M.mem[n]
        slots = M.slots(n)
        if a.size > 64 and slots["flat"] is not None:
            rp.fill(slots["flat"], a.size, a.w // 8, dflt)
        else:
            for i, d in slots["at"].items():
                rp.poke(d, a.w // 8, dflt)
        for i, v in ents.items():
            d = slots["at"].get(i)
            if d is not None:
                rp.poke(d, a.w // 8, v)


def _slots(self, n):
    if not hasattr(self, "_sl"):
        self._sl = {}
    r = self._sl.get(n)
    if r is None:
        a = self.mem[n]
        at = {i: d for d, (x, i) in self.ex.slot_of.items() if x is a}
        flat = None
        if len(at) == a.size:
            b = at[a.start]
            if all(at[a.start + k] == b + k * (a.w // 8) for k in range(a.size)):
                flat = b
        r = self._sl[n] = {"at": at, "flat": flat}
    return r


Mach.slots = _slots


def confirm(M, st0, regs, S, m, what, ops):
    """Replay a counterexample on the real code; -> dict(confirmed, text, input)."""
    if m is None or isinstance(m, str):
        return dict(confirmed=False, text=f"no model: {m}", input=None)
    rv, mv = concretise(M, st0, regs, m)
    cpu = M.cpu
    inp = {"opcode": ops, "registers": {k: hex(v) for k, v in rv.items()},
           "memory": {n: {"entries": {hex(k): hex(v) for k, v in sorted(e.items())[:40]}, "else": hex(d)} for n, (e, d) in mv.items()}}
    rp = harness.Replay(M.img)
    poke_state(M, rp, rv, mv)
    ev = lambda x: m.eval(x, model_completion=True).as_long()
    locs = []
    if what is None:
        pass
    elif what[0] == "reg":
        n = what[1]
        w = cpu.regs[n][1]
        care = ev(bv(S.care[n], w)) if n in S.care else (1 << w) - 1
        a, sz = M.img.addr["r." + n], M.img.size["r." + n]
        if sz * 8 > w:
            care |= ((1 << 8 * sz) - 1) & ~((1 << w) - 1)
        locs.append((f"register {n}", a, sz, ev(S.r[n]) & care, care))
    elif what[0] == "mem":
        n = what[1]
        k = ev(z3.BitVec("k_" + n, 32))
        at = M.slots(n)["at"]
        if k in at:
            kk = z3.BitVecVal(k, 32)
            mk = ev(S.mmask(n, kk, M.mem[n].w))
            locs.append((f"{n}[{k:#x}]", at[k], M.mem[n].w // 8, ev(S.rd(n, kk)) & mk, mk))
    elif what[0] == "ticks":
        locs.append(("machine cycles", M.img.addr["f.inst_ticks"], 4, ev(bv(S.ticks, 32)), 0xffffffff))
    elif what[0] == "frame":
        _, a, n = what
        old = M.ex.ld(st0, a, n)
        old = old if isinstance(old, int) else ev(old)
        if n == 8 and M.img.heap <= old < M.img.heap_end:
            old = None
        locs.append((where(M, a), a, n, old, (1 << 8 * n) - 1))
    try:
        fn = M.img.sym[M.ex.fn(cpu.entry_of(S.label)).name]
    except Exception:
        return dict(confirmed=False, text="entry not found", input=inp)
    if what is not None and what[0] in ("frame", "ticks"):
        rp.peek(locs[0][1], locs[0][2])
    rp.call(fn, [M.u])
    for _, a, n, _, _ in locs:
        rp.peek(a, n)
    rets, mems = rp.run()
    if rets is None:
        return dict(confirmed=True, text=f"real code: {mems}; input {inp}", input=inp)
    if what is None:
        return dict(confirmed=False, text=f"input {inp}", input=inp)
    if what[0] == "ret":
        want = ev(bv(S.ret if hasattr(S, "ret") else cpu.ret_ok, 32))
        got = rets[0] & 0xffffffff if rets else None
        return dict(confirmed=got != want, text=f"returns {got}, must return {want}; input {inp}", input=inp)
    if what[0] == "frame" and len(mems) == 2:
        return dict(confirmed=mems[0] != mems[1], text=f"{locs[0][0]}: {mems[0]:#x} became {mems[1]:#x}; input {inp}", input=inp)
    if what[0] == "ticks" and len(mems) == 2:
        mems = [mems[1] - mems[0]]
    if not locs or not mems or what[0] == "frame":
        return dict(confirmed=False, text=f"input {inp}", input=inp)
    name, a, n, want, care = locs[0]
    got = mems[0] & care
    return dict(confirmed=got != want, text=f"{name} is {got:#x}, must be {want:#x}; input {inp}", input=inp)


def differential(M, label, ops, why, n=48):
    """Bounded stand-in where the verifier cannot reach: random machine states on the real code."""
    cpu = M.cpu
    rnd = random.Random(f"{os.environ.get('VERIF_SEED', '1')}/{cpu.name}/{label}")
    rp = harness.Replay(M.img)
    fn = M.img.sym[M.ex.fn(cpu.entry_of(label)).name]
    vecs = []

    def val(w):
        m = (1 << w) - 1
        return rnd.choice([0, 1, m, 1 << (w - 1), m >> 1, rnd.getrandbits(w), rnd.getrandbits(w), rnd.getrandbits(w)])
    ops0 = ops
    for _ in range(n):
        ops = list(ops0)
        rv = {r: val(w) for r, (e, w) in cpu.regs.items()}
        regs = {r: z3.BitVecVal(rv[r], w) for r, (e, w) in cpu.regs.items()}
        mv = {}
        for m, a in M.mem.items():
            if a.bits is None:
                mv[m] = ({}, rnd.getrandbits(a.w))
        cm, dv = mv[cpu.code]
        for k in range(8):
            i = cpu.code_addr(regs, k)
            if k < len(ops) and isinstance(ops[k], str):
                ops[k] = Pat(ops[k], rnd.getrandbits(64))
                cm[z3.simplify(i).as_long()] = z3.simplify(pattern(ops[k])[0]).as_long()
                continue
            cm[z3.simplify(i).as_long()] = ops[k] if k < len(ops) and ops[k] is not None else val(M.mem[cpu.code].w)
        S = Spec(cpu, regs, lambda m, i: z3.BitVecVal(mv[m][0].get(z3.simplify(i).as_long(), mv[m][1]), M.mem[m].w))
        cpu.spec(S, label, ops)
        if S.only and not z3.is_true(z3.simplify(z3.And(*S.only))):
            continue
        exp = []
        for r, (e, w) in cpu.regs.items():
            care = z3.simplify(bv(S.care[r], w)).as_long() if r in S.care else (1 << w) - 1
            exp.append((f"register {r}", M.img.addr["r." + r], M.img.size["r." + r], z3.simplify(S.r[r]).as_long() & care, care))
        for m, ws in S.w.items():
            for c, i, v in ws:
                if z3.is_true(z3.simplify(c)):
                    i = z3.simplify(i).as_long()
                    d = M.slots(m)["at"].get(i)
                    if d is not None:
                        ii = z3.BitVecVal(i, 32)
                        mk = z3.simplify(S.mmask(m, ii, M.mem[m].w)).as_long()
                        exp.append((f"{m}[{i:#x}]", d, M.mem[m].w // 8, z3.simplify(S.rd(m, ii)).as_long() & mk, mk))
        poke_state(M, rp, rv, mv)
        rp.call(fn, [M.u])
        for _, a, sz, _, _ in exp:
            rp.peek(a, sz)
        vecs.append((rv, mv, exp))
    rets, mems = rp.run()
    res = {"unit": f"{cpu.name}:{label}", "obligations": 1, "discharged": 0, "bounded": f"{len(vecs)} random states; {why}", "fails": []}
    if rets is None:
        res["undecided"] = str(mems)
        return res
    k = 0
    for (rv, mv, exp), ret in zip(vecs, rets):
        for name, a, sz, want, care in exp:
            got = mems[k]
            k += 1
            if (got & care if care >= 0 else got) != want and not res["fails"]:
                res["fails"].append(dict(obligation=name, confirmed=True, text=f"{name} is {got:#x}, must be {want:#x}; input "
                                         f"{ {r: hex(v) for r, v in rv.items()} } memory { {m: {hex(i): hex(v) for i, v in e.items()} for m, (e, d) in mv.items()} } else { {m: hex(d) for m, (e, d) in mv.items()} }"))
    return res


_M = None


def _work(item):
    t = time.time()
    r = _work1(item)
    if r is not None:
        r["secs"] = time.time() - t
    return r


def _work1(item):
    why = None
    try:
        r = verify_op(_M, *item)
        if r is None or not r.get("undecided") or r.get("fails"):
            return r
        why = r["undecided"]
    except Unsupported as e:
        why = str(e)
    except z3.Z3Exception as e:
        why = "z3: " + str(e)
    if os.environ.get("DV_NODIFF"):
        return {"unit": f"{_M.cpu.name}:{item[0]}", "undecided": why}
    return differential(_M, item[0], item[1], why)


def memory_map(M):
    """The instruction contracts speak of memory that exists: each address of the machine's memories has its own storage."""
    for n, a in M.mem.items():
        if a.bits is not None:
            continue
        res = M.cpu.reserved.get(n, ())
        bad = sorted(i for i in a.undecoded if not any(lo <= i <= hi for lo, hi in res))
        r = {"unit": f"{M.cpu.name}:memory map of {n}", "obligations": 1, "discharged": int(not bad), "fails": []}
        if bad:
            r["fails"].append(dict(obligation="every address has storage of its own", confirmed=True, input=None,
                                   text=f"{n}[{bad[0]:#x}] and {len(bad) - 1} more addresses have no storage of their own in the machine as constructed"))
        yield r


def run_cpu(rep, cpu, only=None):
    global _M
    _M = Mach(cpu)
    items = [(l, o) for l, o in cpu.opcodes() if only is None or l in only]
    for r in memory_map(_M):
        rep.merge(r)
    for r in pmap(_work, items):
        if r is not None:
            rep.merge(r)
    return _M
