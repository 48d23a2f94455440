#!/usr/bin/env python3
"""Run checks against the planted bugs: runseeds.py [id-prefix ...] (applies, checks, undoes in /repo)."""
import json, os, subprocess, sys, time
ids = sorted(d for d in os.listdir("/verif/seeded") if not sys.argv[1:] or any(d.startswith(p) for p in sys.argv[1:]))
for i in ids:
    d = f"/verif/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        t = time.time()
        r = subprocess.run(["/verif/bin/check", p], capture_output=True, text=True, cwd="/verif")
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    f = [l for l in r.stdout.split("\n") if l.startswith("failed ob")]
    ok = r.returncode == 1 and v
    cf = "/verif/tools/caught.json"
    cj = json.load(open(cf)) if os.path.exists(cf) else {}
    cj[i] = f"{p}: {f[0][19:150] if f else ''}" if ok else "missed"
    json.dump(cj, open(cf, "w"), indent=0, sort_keys=True)
    print(i, p, "rc", r.returncode, f"{time.time()-t:.0f}s", "CAUGHT" if r.returncode == 1 and v else "MISSED", (v or [""])[0][-30:], (f or [r.stdout[-200:] + r.stderr[-200:]])[0][:160])
