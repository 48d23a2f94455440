"""What every check shares: obligations, evidence, VIOLATION lines, known findings."""
import json
import os
import re
import sys
import time
import traceback

from . import build
from .llvm import Unsupported

VERIF = build.VERIF
TRUSTED = [
    "clang++-18 front end and opt-18 (sroa, early-cse, simplifycfg, instcombine): C++ source to LLVM IR",
    "dv/sym.py: the verification-condition generator over that IR (written for this work)",
    "z3 5.3 (SMT back end)",
]


class Report:
    """Collects the obligations of one property run and ends the process with the right exit code."""

    def __init__(self, prop, level="proof"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obligations = self.discharged = 0
        self.bounded_obligations = self.bounded_discharged = 0
        self.paths = 0
        self.units = {}         # function / instruction -> (obligations, discharged)
        self.bounded = []       # units decided only within a bound
        self.undecided = []
        self.violations = []    # dicts
        self.samples = []
        self.contracts = {}
        self.functions = {}
        self.externals = {}
        self.assumptions = []
        self.witness = None
        self.queries = 0
        self.qtime = 0.0
        self.notes = {}
        self.covers = 0
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"]

    def merge(self, r):
        """r: a result dict of one unit (one function or one instruction), from a worker."""
        u = self.units.setdefault(r["unit"], [0, 0])
        u[0] += r.get("obligations", 0)
        u[1] += r.get("discharged", 0)
        if r.get("bounded"):     # never counted as proved
            self.bounded_obligations += r.get("obligations", 0)
            self.bounded_discharged += r.get("discharged", 0)
        else:
            self.obligations += r.get("obligations", 0)
            self.discharged += r.get("discharged", 0)
        self.paths += r.get("paths", 0)
        self.covers += r.get("covers", 0)
        self.queries += r.get("queries", 0)
        self.qtime += r.get("qtime", 0.0)
        for k, d in (("contracts", self.contracts), ("functions", self.functions), ("externals", self.externals)):
            for n, c in r.get(k, {}).items():
                d[n] = d.get(n, 0) + c
        if r.get("bounded"):
            self.bounded.append({"unit": r["unit"], "why": r["bounded"]})
        if r.get("undecided"):
            self.undecided.append({"unit": r["unit"], "why": r["undecided"]})
        for f in r.get("fails", []):
            f = dict(f)
            f.setdefault("unit", r["unit"])
            self.violations.append(f)
        if r.get("sample") and len(self.samples) < 4:
            self.samples.append(r["sample"])

    def is_known(self, f):
        for k in self.known:
            if k.get("unit") == f.get("unit") and (k.get("obligation") is None or k["obligation"] == f.get("obligation")):
                return k
        return None

    def finish(self):
        from . import llvm
        new, seen_known = [], {}
        for f in self.violations:
            k = self.is_known(f)
            if k is not None:
                seen_known[k["id"]] = k
            else:
                new.append(f)
        # an obligation that is neither discharged nor refuted is not an accepted one
        for u in self.undecided:
            new.append(dict(unit=u["unit"], obligation="the verifier accepts the function", text="not decided: " + u["why"][-600:]))
        cov = {
            "obligations": self.obligations,
            "discharged": self.discharged,
            "checker_cmd": f"python3-vt /verif/bin/check {self.prop}",
            "trusted_base": TRUSTED,
            "back_end": "z3 " + _z3ver(),
            "solver_queries": self.queries,
            "solver_seconds": round(self.qtime, 2),
            "paths": self.paths,
            "preconditions_shown_satisfiable": self.covers,
            "units_under_contract": len(self.units),
            "units": {k: f"{v[1]}/{v[0]}" for k, v in sorted(self.units.items())},
            "functions_executed_in_place": len(self.functions),
            "functions": sorted(self.functions)[:400],
            "contracts_used_at_calls": self.contracts,
            "assumed_external_functions": self.externals,
            "bounded_stand_ins": self.bounded,
            "bounded_obligations_not_counted_above": f"{self.bounded_discharged}/{self.bounded_obligations}",
            "undecided": self.undecided,
            "known_findings": [k["id"] for k in seen_known.values()],
            "samples": self.samples,
        }
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        build.write_if_new(f"{VERIF}/evidence/{self.prop}.json", json.dumps(ev, indent=1, default=str) + "\n")
        for k in seen_known.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop}: {self.discharged}/{self.obligations} obligations discharged over {len(self.units)} units, "
              f"{self.paths} paths, {self.queries} queries, {round(self.qtime, 1)} s solver, "
              f"{len(self.bounded)} bounded ({self.bounded_discharged}/{self.bounded_obligations}), {len(self.undecided)} undecided, {ev['wall_s']} s")
        for u in self.undecided[:20]:
            print("undecided:", u["unit"], "-", u["why"][:300])
        if new:
            d = f"{build.BUILD}/replay"
            os.makedirs(d, exist_ok=True)
            if self.witness and not any(f.get("confirmed") for f in new):
                # the verifier gave no input: one is looked for on the real program
                try:
                    w = self.witness()
                except Exception as x:
                    w = None
                    new[0]["why_no_input"] = repr(x)[:300]
                if w:
                    new.insert(0, dict(unit=new[0]["unit"], obligation=new[0].get("obligation"), text="failing input, found on the real program: " + w["what"], confirmed=True, input=w))
            path = f"{d}/{self.prop}.json"
            new.sort(key=lambda f: not f.get("confirmed"))
            build.write_if_new(path, json.dumps(new, indent=1, default=str) + "\n")
            for f in new[:12]:
                print(f"failed obligation: {f['unit']}: {f.get('obligation')}"
                      + (" [replayed on the real code]" if f.get("confirmed") else " [not replayed]"))
                if f.get("text"):
                    print("   ", str(f["text"])[:1000])
            tail = "" if any(f.get("confirmed") for f in new) else " no-failing-input-found"
            print(f"VIOLATION property={self.prop} replay={path}{tail}")
            sys.stdout.flush()
            return 1
        if self.obligations == 0:
            print("no obligation was generated")
            return 2
        return 0


def _z3ver():
    import z3
    return z3.get_version_string()


def unit_result(ex, unit, **kw):
    r = {"unit": unit, "queries": ex.nq, "qtime": ex.qtime,
         "contracts": dict(ex.used_contracts),
         "functions": {ex.dem.get(k, k): v for k, v in ex.inlined.items()},
         "externals": dict(ex.externals_used)}
    ex.nq, ex.qtime = 0, 0.0
    ex.used_contracts, ex.inlined, ex.externals_used = {}, {}, {}
    r.update(kw)
    return r


def pmap(fn, items, n=None):
    """Ordered parallel map by fork; fn must not raise for expected failures."""
    import multiprocessing as mp
    n = min(n or build.NCPU, max(1, len(items)))
    if n == 1 or os.environ.get("DV_SERIAL"):
        return [fn(i) for i in items]
    ctx = mp.get_context("fork")
    global _fn
    _fn = fn
    with ctx.Pool(n) as p:
        return p.map(_call, items, chunksize=1)


def _call(i):
    return _fn(i)
