"""Builds what the checks need from /repo's current sources.

Every .cc of the core library and of one simulator is compiled by clang to bitcode, lightly
optimised (mem2reg-style passes only, no inlining), linked into one module, and that one module is
used twice: the verifier reads it, and llc turns the very same module into the native program that
(1) constructs the machine and dumps the object graph the proofs start from and (2) replays
counterexamples. Compilation is cached by the hash of the preprocessed text; proofs never are.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("DV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("DV_BUILD") or os.path.join(VERIF, "build")
CLANG, OPT, LINK, LLC = ("/usr/bin/" + x + "-18" for x in ("clang++", "opt", "llvm-link", "llc"))
GXX = "/usr/bin/g++"
PASSES = "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)"
CORE = ["sim", "cmd", "gui", "utils"]
NCPU = os.cpu_count() or 4


class BuildError(Exception):
    """/repo does not build: nothing can be decided."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError(f"{' '.join(map(str, cmd))[:300]}\n{r.stderr.decode(errors='replace')[-3000:]}")
    return r.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def write_if_new(path, text):
    data = text.encode() if isinstance(text, str) else text
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def objs_of(d):
    txt = open(os.path.join(d, "objs.mk")).read().replace("\\\n", " ")
    txt = "\n".join(ln.split("#")[0] for ln in txt.split("\n"))
    out = []
    for o in re.findall(r"([\w.+-]+)\.o\b", txt):
        if o == "fwio":
            continue
        out.append(o)
    return out


def gen_config():
    """ddconfig.h, the parser and the lexer, as the project's build makes them."""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    ans = json.load(open(os.path.join(VERIF, "dv/cfg/config_answers.json")))
    t = open(f"{REPO}/src/core/utils.src/ddconfig_in.h").read()

    def sub(m):
        n = m[1]
        return f"#define {n} {ans[n]}" if n in ans else f"/* #undef {n} */"
    write_if_new(f"{d}/ddconfig.h", re.sub(r"^\s*#\s*undef\s+(\w+)", sub, t, flags=re.M))
    key = sha(open(f"{REPO}/src/core/cmd.src/cmdpars.y", "rb").read(),
              open(f"{REPO}/src/core/cmd.src/cmdlex.l", "rb").read())
    stamp = f"{d}/cmd.stamp"
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        tmp = tempfile.mkdtemp(dir=d)
        shutil.copy(f"{REPO}/src/core/cmd.src/cmdpars.y", tmp)
        shutil.copy(f"{REPO}/src/core/cmd.src/cmdlex.l", tmp)
        run(["bison", "-d", "-ocmdpars.cc", "cmdpars.y"], cwd=tmp)
        run(["flex", "-ocmdlex.cc", "cmdlex.l"], cwd=tmp)
        for f in os.listdir(tmp):
            os.replace(f"{tmp}/{f}", f"{d}/{f}")
        os.rmdir(tmp)
        open(stamp, "w").write(key)
    return d


def sources(sim):
    """[(path, is_sim)] of the core library and of the simulator directory."""
    gen = gen_config()
    out = []
    mods = list(CORE)
    simdir = f"{REPO}/src/sims/{sim}.src" if sim else None
    if sim in ("m6800", "m68hc11", "m68hc12", "m6809"):
        mods.append("motorola")
    for m in mods:
        d = f"{REPO}/src/core/{m}.src"
        for o in objs_of(d):
            p = f"{d}/{o}.cc"
            if not os.path.exists(p):
                p = f"{gen}/{o}.cc"
            out.append(p)
    if sim:
        for o in objs_of(simdir):
            out.append(f"{simdir}/{o}.cc")
    return out


def flags(sim):
    fl = ["-O1", "-fno-inline", "-fno-strict-aliasing", "-Xclang", "-disable-llvm-passes",
          "-fno-exceptions", "-fno-access-control", "-ffp-contract=off", "-w", "-fno-pic", "-fno-pie",
          "-fno-threadsafe-statics", "-fno-vectorize", "-fno-slp-vectorize", "-fno-stack-protector",
          "-D_FORTIFY_SOURCE=0", "-U_FORTIFY_SOURCE", "-std=gnu++17",
          f"-I{BUILD}/gen"]
    for m in CORE + ["motorola"]:
        fl.append(f"-I{REPO}/src/core/{m}.src")
    if sim:
        fl.append(f"-I{REPO}/src/sims/{sim}.src")
    return fl


def compile_bc(path, sim, extra=()):
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    fl = flags(sim) + list(extra)
    pre = run([CLANG, *fl, "-E", "-P", path])
    key = sha(pre, PASSES, *[f for f in fl if not f.startswith("-I")])
    out = f"{cache}/{key}.bc"
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.{os.path.basename(path)}"
        run([CLANG, *fl, "-emit-llvm", "-c", path, "-o", tmp])
        run([OPT, "-passes=" + PASSES, tmp, "-o", tmp + ".o"])
        os.unlink(tmp)
        os.replace(tmp + ".o", out)
    return out


MAINS = {"-Dmain=dv_real_main"}


def build(sim, harness_src, tag, extra=(), srcs=None):
    """-> (bitcode path, executable path). harness_src: C++ text with the harness main."""
    gen_config()
    srcs = list(srcs if srcs is not None else sources(sim))
    hdir = os.path.join(BUILD, "harness")
    os.makedirs(hdir, exist_ok=True)
    hp = f"{hdir}/{tag}.cc"
    write_if_new(hp, harness_src)

    def one(p):
        if p == hp:
            return compile_bc(p, sim, extra)
        ex = list(extra)
        if "/sims/" in p and os.path.basename(p).startswith("s"):
            ex.append("-Dmain=dv_real_main")
        return compile_bc(p, sim, ex)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bcs = list(ex.map(one, srcs + [hp]))
    key = sha(*[os.path.basename(b) for b in bcs])
    out = f"{BUILD}/cache/{tag}-{key}"
    bc, exe = out + ".bc", out + ".exe"
    if not (os.path.exists(bc) and os.path.exists(exe)):
        t = f"{out}.{os.getpid()}"
        run([LINK, *bcs, "-o", t + ".bc"])
        run([LLC, "-O1", "-filetype=obj", "-relocation-model=static", t + ".bc", "-o", t + ".o"])
        run([GXX, "-static", "-no-pie", t + ".o", "-o", t + ".exe"])
        os.unlink(t + ".o")
        os.replace(t + ".bc", bc)
        os.replace(t + ".exe", exe)
        prune(tag, key)
    return bc, exe


def prune(tag, key):
    c = f"{BUILD}/cache"
    fs = sorted((os.path.getmtime(f"{c}/{f}"), f) for f in os.listdir(c)
                if f.startswith(tag + "-") and key not in f and f.count(".") == 1)
    for _, f in fs[:-4]:
        try:
            os.unlink(f"{c}/{f}")
        except OSError:
            pass
