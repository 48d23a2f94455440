#!/usr/bin/env python3
"""Make a planted bug: mkseed.py SPEC.py  (edits in a scratch copy, builds, tests, runs the demo both ways).

SPEC.py defines SEEDS: list of dicts id, prop, needs, breaks, edits [(file, old, new)], sim (ucsim_X),
args, cmds (text fed to the simulator), want [regex that must match the output, in order or not], or demo (full script)
"""
import json, os, re, subprocess, sys, importlib.util
WT = "/tmp/seedwt"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo_text(s):
    if "demo" in s:
        return s["demo"]
    greps = "\n".join(f"grep -Eq -e '{w}' <<<\"$out\" || {{ echo 'missing: {w}'; echo \"$out\" | tail -n 25; exit 1; }}" for w in s.get("want", []))
    greps += "\n" + "\n".join(f"! grep -Eq -e '{w}' <<<\"$out\" || {{ echo 'unexpected: {w}'; exit 1; }}" for w in s.get("not", []))
    d = s["sim"]
    src = {"51": "s51"}.get(d, d)
    return f"""#!/bin/bash
# {s['breaks']}
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
R=$PWD
{s.get('prep','')}
cat >"$T/cmds" <<'EOF'
{s['cmds'].strip()}
quit
EOF
out=$(cd "$T" && timeout 100 "$R/_build/src/sims/{src}.src/ucsim_{d}" {s.get('args','')} <"$T/cmds" 2>&1)
{greps}
exit 0
"""
def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    sh(f"rm -rf {WT}; mkdir -p {WT}; cp -a /repo {WT}/")
    wt = f"{WT}/repo"
    ns = f"unshare -Urm bash -c 'mount --bind {wt} /repo && cd /repo && %s'"
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        sh(f"git -C {wt} checkout -q -- .")
        d = f"{WT}/out/{s['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(demo_text(s)); os.chmod(d + "/demo.sh", 0o755)
        for fn, t in s.get("files", {}).items():
            open(f"{d}/{fn}", "w").write(t)
        ok = True
        for f, a, b in s["edits"]:
            p = f"{wt}/src/{f}"; t = open(p, newline="").read()
            if t.count(a) < 1: print(s["id"], "edit text not found in", f); ok = False; break
            if t.count(a) > 1: print(s["id"], "edit text not unique in", f, t.count(a)); ok = False; break
            open(p, "w", newline="").write(t.replace(a, b))
        if not ok: continue
        diff = subprocess.run(f"git -C {wt} diff", shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh(f"cd /repo && bash {d}/demo.sh")
        if r0.returncode: print(s["id"], "demo fails on the unchanged tree:", r0.stdout[-400:]); continue
        b = sh(ns % "bash /opt/vp/test.sh /tmp/seedwt/t.json")
        try: t = json.load(open("/tmp/seedwt/t.json"))
        except Exception: t = {"passed": []}
        if len(t["passed"]) < 3: print(s["id"], "build/tests fail", b.stderr[-600:], t); continue
        r1 = sh(ns % f"bash {d}/demo.sh")
        if r1.returncode == 0: print(s["id"], "demo does not notice the change"); continue
        sh(f"rm -rf /verif/seeded/{s['id']}; cp -r {d} /verif/seeded/{s['id']}")
        print(s["id"], "ok:", r1.stdout.strip().split("\n")[0][:150])
    sh(f"rm -rf {WT}")
main()
