"""After an obligation has failed: looks for a concrete input that shows the failure on the real
program (the simulator built from the very module that was verified). It decides nothing by itself:
it is only asked when the verifier has rejected something, and what it finds goes into the replay file."""
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

from . import build


def sim(exe, cmds, files=(), args=()):
    """Runs the simulator; -> its output."""
    d = tempfile.mkdtemp(prefix="wit", dir=build.BUILD)
    try:
        for n, t in files:
            open(f"{d}/{n}", "wb").write(t)
        r = subprocess.run([exe, "sim", *args], input=(cmds + "\nquit\n").encode(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20,
                           env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TERM": "dumb"})
        return r.stdout.decode("latin1")
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dumped(out, width):
    """Words of `dump /h` lines -> {address: value}."""
    m, k = {}, width // 4
    for ln in out.split("\n"):
        x = re.match(r"0x([0-9a-f]+)((?: [0-9a-f]{%d}){%d}) " % (k, 8), ln)
        if x:
            for i, w in enumerate(x[2].split()):
                m[int(x[1], 16) + i] = int(w, 16)
    return m


def hexrec(t, a, d, bad=0):
    b = bytes([len(d)]) + a.to_bytes(2, "big") + bytes([t]) + bytes(d)
    return ":" + (b + bytes([(-sum(b) & 255) ^ bad])).hex().upper()


def srec(t, a, d, n, bad=0):
    b = bytes([len(d) + n + 1]) + a.to_bytes(n, "big") + bytes(d)
    return f"S{t}" + (b + bytes([(~sum(b) & 255) ^ bad])).hex().upper()


def loader_case(R, bpw):
    """-> (name, text, {word address: value}) of a random file. Words land in 0..0xff."""
    mem, lines = {}, []

    def put(base, d):
        for i in range(0, len(d), bpw):
            mem[(base + i) // bpw] = sum(d[i + j] << (8 * j) for j in range(bpw))
    hexf = R.random() < .5
    base, ended, words = 0, False, 0
    for _ in range(R.randrange(1, 9)):
        k = R.random()
        d = [R.randrange(256) for _ in range(bpw * R.randrange(0 if not hexf else 1, 9))]
        a = bpw * R.randrange(0, 0xf0)
        bad = R.choice([0, 0, 0, 0, 1, 0x80, 0x10, 0xff])
        if hexf:
            if k < .55:
                lines.append(hexrec(0, a, d, bad))
                if not bad and not ended and base == 0:
                    put(a, d)
            elif k < .8:
                b = R.choice([0, 0, 0, 1, 0x100])
                bad = R.choice([0, 0, 0, 0x80, 1])
                lines.append(hexrec(4, 0, [b >> 8, b & 255], bad))
                if not bad and not ended:
                    base = b << 16
            elif k < .9:
                lines.append(hexrec(R.choice([3, 5]), 0, d[:4] + [0] * (4 - len(d[:4])), 0))
            elif k < .93:
                lines.append(hexrec(1, 0, [], 0))
                ended = True
            elif k < .97:
                lines.append("; text")
        else:
            n = R.choice([2, 3, 4])
            if k < .7:
                lines.append(srec(n - 1, a, d, n, bad))
                if not bad:
                    put(a, d)
            elif k < .8:
                lines.append(srec(R.choice([0, 5]), a, d[:2], 2, 0))
            elif k < .9:
                lines.append(srec(n - 1, a, d + [0] * bpw, n, 0)[:-R.choice([2, 4])])
            elif k < .95:
                lines.append("")
    t = "\n".join(lines) + R.choice(["\n", "", "\r\n"])
    return ("w.ihx" if hexf else "w.s19"), t, mem


def loader(exe, secs=60):
    R, t0 = random.Random(1), time.time()
    for e, width in ((exe, 8), (None, 16)):
        if e is None:
            try:
                from . import harness
                src = harness.source(["globals.h", "utils.h", "appcl.h", "memcl.h"], harness.SIM_SETUP, dict(harness.BASE_PROBES), harness.SIM_PRE)
                e = build.build("avr", src, "wit_avr")[1]
            except Exception:
                return None
        t0 = time.time()
        while time.time() - t0 < secs / 2:
            name, text, mem = loader_case(R, width // 8)
            out = sim(e, f'fill rom 0 0x1ff 0\nfile "{name}"\ndump /h rom 0 0x1ff', [(name, text.encode())])
            got = dumped(out, width)
            if len(got) < 0x200:
                if out == "TIMEOUT" or "dump" in out:
                    return dict(file=text, what="the program does not come back from loading the file", output=out[-500:])
                continue
            for a in range(0x200):
                if got.get(a) != mem.get(a, 0):
                    return dict(file=text, name=name, what=f"memory of {width} bits: word {a:#x} is {got.get(a)} after loading the file, expected {mem.get(a, 0)}")
    return None
