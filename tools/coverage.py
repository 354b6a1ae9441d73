#!/usr/bin/env python3
"""coverage.py [ID...]  (development tool): lines of the library that no check executes.
Builds the harnesses with clang's source coverage, runs the quick workload once, prints the instantiated lines
that no check reached (templates: reached in no instantiation)."""
import glob, json, os, re, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
W = "/tmp/cov"
conf = json.load(open(V + "/checks.json"))
os.makedirs(W + "/o", exist_ok=True)
def cc(j):
    src, flags, out = j
    if os.path.exists(out): return None
    p = subprocess.run(["clang++", "-std=c++20", "-O0", "-g0", "-w", "-fprofile-instr-generate", "-fcoverage-mapping", "-I" + R + "/include", "-I" + V + "/harness/common", "-D_GLIBCXX_ASSERTIONS"] + flags + ["-c", src, "-o", out], capture_output=True, text=True)
    return p.stderr[-1500:] if p.returncode else None
def main():
    ids = sys.argv[1:] or sorted(conf)
    hits = {}
    ex = cf.ThreadPoolExecutor(8)
    for p in ids:
        c = conf[p]
        d = f"{W}/{p}"; os.makedirs(d, exist_ok=True)
        v = next((x for x in c["variants"] if x["san"] != "tsan"), c["variants"][0])
        flags = [f for f in c.get("flags", []) + v.get("flags", []) if not f.startswith("-fsanitize")]
        srcs = [V + "/harness/common/vh.cpp"] + sum([sorted(glob.glob(V + "/harness/" + s)) for s in c["sources"]], []) + sorted(glob.glob(R + "/src/**/*.cpp", recursive=True))
        import fnmatch
        srcs = [s for s in srcs if not any(fnmatch.fnmatch(os.path.relpath(s, R), k) for k in c.get("lib_skip", []))]
        jobs = [(s, flags, d + "/" + s.replace("/", "_") + ".o") for s in srcs]
        bad = [e for e in ex.map(cc, jobs) if e]
        if bad: print(p, "does not build:", bad[0]); continue
        b = d + "/bin"
        q = subprocess.run(["clang++", "-fprofile-instr-generate"] + [j[2] for j in jobs] + ["-o", b, "-pthread"] + c.get("libs", []), capture_output=True, text=True)
        if q.returncode: print(p, "does not link", q.stderr[-800:]); continue
        def one(i):
            s = f"{d}/s{i}"; os.makedirs(s, exist_ok=True)
            e = dict(os.environ, LLVM_PROFILE_FILE=s + "/p.profraw", TMPDIR=s)
            for k in list(e):
                if k.startswith("LC_") or k == "LANG": del e[k]
            try: return subprocess.run([b, "--page", s + "/page", "--out", s + "/out", "--hashes", s + "/h", "--tier", "quick", "--seed", "1", "--shard", f"{i}/8", "--scale", str(v.get("scale", 1))], cwd=s, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=1500).returncode
            except subprocess.TimeoutExpired: return -99
        rcs = list(ex.map(one, range(8)))
        raws = glob.glob(d + "/s*/p.profraw")
        if not raws: print(p, "no profile", rcs); continue
        subprocess.check_call(["llvm-profdata", "merge", "-sparse", "-o", d + "/p.profdata"] + raws)
        t = subprocess.run(["llvm-cov", "export", "-format=lcov", "-instr-profile", d + "/p.profdata", b, "--ignore-filename-regex=harness|/usr/"], capture_output=True, text=True).stdout
        f = None; n = 0
        for l in t.splitlines():
            if l.startswith("SF:"): f = hits.setdefault(os.path.relpath(l[3:], R), {})
            elif l.startswith("DA:"):
                a, h = l[3:].split(",")[:2]; f[int(a)] = f.get(int(a), 0) + int(h); n += int(h) > 0
        print(p, "rc", rcs, n, "lines hit", flush=True)
        subprocess.call(["rm", "-rf", d])
        json.dump(hits, open(W + "/hits.json", "w"))
    for f in sorted(hits):
        try: L = open(R + "/" + f, encoding="utf-8", errors="replace").read().split("\n")
        except OSError: continue
        un = [i for i in sorted(hits[f]) if not hits[f][i] and L[i - 1].strip() not in ("{", "}", "};", "")]
        print(f"== {f}: {len(un)} of {len(hits[f])} lines not reached")
        for i in un: print(f"   {i}: {L[i - 1].strip()[:110]}")
main()
