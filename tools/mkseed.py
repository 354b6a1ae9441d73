#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]  (development tool): make and confirm planted bugs.

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new[, nth])], demo=C++ text, needs, breaks, [flags])].
Each is applied to a scratch copy of /repo, built, run through the unit tests there, and its demonstration
is run with and without it; kept under seeded/<id>/ only when everything is as required."""
import json, os, re, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++20 -O1 -g1 -w %s -I include "$d/demo.cpp" $(find src -name '*.cpp') -pthread -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo
'''
def prepare():
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"cd {S} && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q {head} && git clean -fdq -e _build")
    sh(f"cmake -S {S} -B {S}/_bm -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -Dpapilio_build_unit_test=ON -Dpapilio_build_example=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest")
def tests():
    r = sh(f"cd {S} && ninja -C _bm -j8")
    if r.returncode: return "build failed\n" + r.stdout[-2500:]
    r = sh(f"ctest --test-dir {S}/_bm -j8 --timeout 300")
    if r.returncode: return "tests fail\n" + r.stdout[-1500:]
    return None
def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=S)
def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    prepare()
    for s in spec:
        if only and s["id"] not in only: continue
        d = f"{V}/seeded/{s['id']}"
        if os.path.isdir(d) and not only: continue
        bad = None
        for e in s["edits"]:
            f, old, new = e[:3]
            p = f"{S}/{f}"
            t = open(p, newline="").read()
            n = t.count(old)
            nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None): bad = f"{n} matches: {old[:80]!r}"; break
            i = -1
            for _ in range((nth or 0) + 1): i = t.index(old, i + 1)
            open(p, "w", newline="").write(t[:i] + new + t[i + len(old):])
        os.makedirs(d, exist_ok=True)
        if not bad:
            open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE).stdout.decode())
            open(d + "/demo.cpp", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            # removed lines must be lines of the original repository
            blame = sh(f"cd {S} && git diff -U0 | grep -E '^-[^-]' | head -20").stdout
            for l in blame.splitlines():
                t = l[1:].strip()
                if t and sh(f"git -C {S} grep -F -e {json.dumps(t) if False else subprocess.list2cmdline([t])} fc9116e -- include src").returncode:
                    print("  note: changed line is perhaps not of the original:", t)
            x = demo(d)
            if x.returncode in (0, 99): bad = f"demo with the patch: exit {x.returncode}\n" + x.stdout[-800:]
            else: out = x.stdout.strip().splitlines()[:3]
        if not bad: bad = tests()
        sh(f"git -C {S} checkout -q -- .")
        if not bad:
            x = demo(d)
            if x.returncode: bad = f"demo without the patch: exit {x.returncode}\n" + x.stdout[-800:]
        if bad:
            print("REJECTED", s["id"], bad)
            shutil.rmtree(d)
        else: print("ok", s["id"], "| demo says:", out)
main()
