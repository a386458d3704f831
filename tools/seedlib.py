"""Confirm planted bugs (see DESIGN.md): applied to /repo, built, tested, demonstrated, checked, undone."""
import json, os, subprocess, sys, time
V = "/verif"; REPO = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
# compiles demo.cpp against the built library and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -I"$repo/Merlin++" "$d/demo.cpp" -o "$t/demo" -L"$repo/_build" -lmerlin++ -Wl,-rpath,"$repo/_build" || exit 9
cd "$t" && timeout 120 ./demo
'''
def stable(): return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def seed(id, prop, needs, breaks, edits, demo, tests=True, checks=None):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
    open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    res = {}
    try:
        r = sh("bash /opt/vp/build.sh", cwd=REPO); assert r.returncode == 0, r.stdout[-1500:]
        r = sh(d + "/demo.sh", cwd=REPO); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout.decode()[-1500:])
        for f, a, b in edits:
            p = os.path.join(REPO, "Merlin++", f); s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/build.sh", cwd=REPO); res["build"] = r.returncode
        if r.returncode: print(r.stdout.decode()[-1500:]); return res
        r = sh(d + "/demo.sh", cwd=REPO); res["demo_bug"] = r.returncode; print("   demo:", r.stdout.decode()[-300:].strip())
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd=REPO)
            res["tests_missing"] = sorted(stable() - set(json.load(open("/tmp/seedtest.json"))["passed"]))
        for c in checks or [prop]:
            r = sh("python3 run/check.py %s quick" % c, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            o = r.stdout.decode(); res["check_" + c] = r.returncode
            print("   " + "\n   ".join(l[:300] for l in o.splitlines()[-6:]))
    finally:
        sh("git -C /repo checkout -- .")
    ok = res.get("demo_clean") == 0 and res.get("demo_bug", 0) != 0 and not res.get("tests_missing")
    print(id, "OK" if ok else "BAD", "caught" if res.get("check_" + prop) == 1 else "MISSED", res, flush=True)
    return res
