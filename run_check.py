#!/usr/bin/env python3
"""Build the harness of one property against /repo's working tree and run it.

usage: run_check.py ID [--tier quick|thorough] [--replay FILE] [--jobs N]
exit 0: held on everything explored;  exit 1: violation (VIOLATION line printed); a harness uses the documented
interface only, so code it does not compile with is one too;
exit 2: the check could not give an answer (build error, too little observed).
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, signal
import struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr,object-size",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
             "-ftrivial-auto-var-init=pattern"],  # a local that is read before it is written has a hostile value
    "tsan": ["-fsanitize=thread"],
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
    "ndebug": ["-DNDEBUG"],
}
HANG_S = 150
REJECTED = []  # harness sources that use the public interface and that the compiler refuses


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def tree_files(*pats):
    r = []
    for p in pats:
        r += glob.glob(p, recursive=True)
    return sorted(f for f in r if os.path.isfile(f))


def headers_hash():
    h = hashlib.sha256()
    for f in tree_files(REPO + "/include/**/*", REPO + "/src/**/*.hpp", REPO + "/src/**/*.inl",
                        VERIF + "/harness/common/*.hpp"):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(job):
    src, flags, hh = job
    extra = b""
    d = os.path.dirname(src)
    if d.startswith(VERIF):
        for f in tree_files(d + "/*.hpp"):
            extra += open(f, "rb").read()
    key = sh_hash(open(src, "rb").read(), extra, " ".join(flags), hh, src)
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run(flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        # a disk that is full or a compiler that was killed says nothing about the code
        odd = re.search(r"internal compiler error|Killed|No space left|annot allocate|annot open|virtual memory exhausted|Segmentation|PLEASE submit", p.stdout)
        if d.startswith(VERIF) and p.returncode == 1 and not odd and re.search(r"error: ", p.stdout):
            again = subprocess.run(flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if again.returncode == 1 and re.search(r"error: ", again.stdout):
                REJECTED.append((src, [l for l in again.stdout.splitlines() if "error: " in l][0], again.stdout[-6000:]))
        return None, "compile failed: %s\n%s" % (src, p.stdout[-6000:])
    os.replace(tmp, obj)
    return obj, None


def trim_cache():
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(CACHE + "/*")]
    fs.sort(reverse=True)
    tot = 0
    for m, s, f in fs:
        tot += s
        if tot > 2_500_000_000:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(prop, conf, var, jobs):
    os.makedirs(CACHE, exist_ok=True)
    trim_cache()
    cxx = var.get("cxx", "g++")
    std = var.get("std", "c++20")
    flags = [cxx, "-std=" + std, var.get("opt", "-O1"), "-g1", "-fno-omit-frame-pointer", "-w",
             "-I" + REPO + "/include", "-I" + VERIF + "/harness/common"]
    flags += SAN[var["san"]] + conf.get("flags", []) + var.get("flags", [])
    if cxx.startswith("clang") and var["san"] == "asan":
        flags += ["-fno-sanitize=function"]
    srcs = [VERIF + "/harness/common/vh.cpp"]
    for p in conf["sources"]:
        srcs += tree_files(VERIF + "/harness/" + p)
    lib = tree_files(REPO + "/src/**/*.cpp")
    skip = conf.get("lib_skip", [])
    lib = [f for f in lib if not any(fnmatch.fnmatch(os.path.relpath(f, REPO), s) for s in skip)]
    order = sorted(srcs + lib, key=lambda f: (0 if f.endswith("xchar.cpp") or "/harness/" in f or f.endswith("format.cpp") else 1))
    hh = headers_hash()
    objs = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for src, (obj, err) in zip(order, ex.map(compile_one, [(s, flags, hh) for s in order])):
            if err:
                print(err)
                return None
            objs[src] = obj
    out = os.path.join(BUILD, "bin", "%s-%s-%d" % (prop, var["name"], os.getpid()))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    link = [cxx] + [f for f in SAN[var["san"]] if f.startswith("-f")] + [objs[s] for s in srcs + lib] + ["-o", out, "-pthread"]
    p = subprocess.run(link + conf.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("link failed\n" + p.stdout[-6000:])
        return None
    return out


def read_page(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        seq, index, done, ln = struct.unpack_from("<QQII", b, 0)
        stream = b[24:24 + 64].split(b"\0")[0].decode("latin1")
        text = b[88:88 + min(ln, 32768)].decode("latin1")
        return seq, index, done, stream, text
    except (OSError, struct.error):
        return 0, 0, 0, "", ""


def crash_key(log):
    m = re.search(r"SUMMARY: \w+: ([^\n]+)", log)
    kind = None
    m2 = re.search(r"runtime error: ([^\n]+)", log)
    if m2:
        kind = "UB: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:120]
    elif re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log):
        kind = "ASan: " + re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log).group(1)
    elif "WARNING: ThreadSanitizer: " in log:
        kind = "TSan: " + re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", log).group(1).strip()
    elif re.search(r"Assertion [`'](.*?)' failed", log):
        kind = "assert: " + re.search(r"Assertion [`'](.*?)' failed", log).group(1)[:100]
    elif "terminate called" in log:
        m3 = re.search(r"terminate called[^\n]*(\n[^\n]*what\(\)[^\n]*)?", log)
        kind = "terminate: " + m3.group(0).replace("\n", " ")[:140]
    elif m:
        kind = m.group(1)[:120]
    return kind


def frames(log):
    r = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S[^\n]*?) (/\S+?):(\d+)", log):
        if "/repo/" in m.group(2):
            r.append("%s (%s:%s)" % (m.group(1)[:80], m.group(2).replace(REPO + "/", ""), m.group(3)))
        if len(r) >= 4:
            break
    return r


def env_for(var, shard_dir):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("LC_") or k in ("LANG", "LANGUAGE"):
            del e[k]
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=1500"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1"
    e["TMPDIR"] = shard_dir
    return e


def run_once(binary, var, args, page, logf, shard_dir, hang_s):
    """returns (rc, hang)"""
    with open(logf, "ab") as lf:
        p = subprocess.Popen([binary] + args, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL,
                             env=env_for(var, shard_dir), cwd=shard_dir, start_new_session=True)
        last, t0 = None, time.time()
        while True:
            try:
                rc = p.wait(timeout=0.5)
                return rc, False
            except subprocess.TimeoutExpired:
                pass
            cur = read_page(page)[:2]
            if cur != last:
                last, t0 = cur, time.time()
            elif time.time() - t0 > hang_s:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                return -9, True


def run_shard(binary, var, tier, seed, shard, nshard, d, scale, cap):
    """returns dict with fails, counts, samples, evals, cases, errors"""
    res = {"fails": [], "counts": {}, "samples": [], "evals": 0, "cases": 0, "ended": False, "notes": []}
    sd = os.path.join(d, "s%d" % shard)
    os.makedirs(sd)
    page, out, hashes = sd + "/page", sd + "/out.jsonl", sd + "/hashes"
    base = ["--page", page, "--out", out, "--hashes", hashes, "--tier", tier, "--seed", str(seed),
            "--shard", "%d/%d" % (shard, nshard), "--scale", str(scale)]
    if cap:
        base += ["--cap", str(cap)]
    frm = []
    for attempt in range(4):
        logf = sd + "/log%d" % attempt
        rc, hang = run_once(binary, var, base + frm, page, logf, sd, HANG_S)
        seq, idx, done, stream, text = read_page(page)
        if rc == 0 and done and not hang:
            break
        log = open(logf, "rb").read().decode("latin1")
        if hang:
            rp = sd + "/replay-page"
            if os.path.exists(rp):
                os.unlink(rp)
            rc2, hang2 = run_once(binary, var, ["--page", rp, "--out", sd + "/replay.jsonl", "--tier", tier, "--seed", str(seed),
                                                "--only", "%s:%d" % (stream, idx)], rp, sd + "/replaylog", sd, HANG_S)
            if hang2:
                res["fails"].append({"stream": stream, "idx": idx, "key": "%s/hang" % stream,
                                     "detail": "no progress for %d s, twice" % HANG_S, "case": text})
            else:
                res["notes"].append("case %s:%d stalled once and finished when re-run alone" % (stream, idx))
        else:
            kind = crash_key(log)
            if kind is None:
                if rc == 3 or "cannot execute" in log:
                    res["notes"].append("harness failure rc=%s: %s" % (rc, log[-500:]))
                    return res
                kind = "abnormal exit rc=%s %s" % (rc, log[-200:].replace("\n", " "))
                # killed from outside (out of memory): inconclusive, not a violation
                if rc == -9:
                    res["notes"].append("harness was killed at %s:%d (%s)" % (stream, idx, text[:200]))
                    return res
            res["fails"].append({"stream": stream, "idx": idx, "key": "%s/crash/%s" % (stream, kind),
                                 "detail": kind + " | " + " <- ".join(frames(log)), "case": text, "log": log[-8000:]})
        # the crashed process wrote no counters: go on behind the case
        frm = ["--from", "%s:%d" % (stream, idx + 1)]
        if os.path.exists(page):
            os.unlink(page)
    else:
        res["notes"].append("shard stopped after repeated crashes")
    if os.path.exists(out):
        for line in open(out, encoding="latin1"):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j["t"] == "fail":
                res["fails"].append(j)
            elif j["t"] == "count":
                res["counts"][j["k"]] = res["counts"].get(j["k"], 0) + j["v"]
            elif j["t"] == "sample":
                res["samples"].append(j)
            elif j["t"] == "end":
                res["evals"] += j["evals"]; res["cases"] += j["cases"]; res["ended"] = True
    hs = set()
    if os.path.exists(hashes):
        b = open(hashes, "rb").read()
        hs = set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    res["hashes"] = hs
    return res


def load_known():
    r = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                r.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--cap", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    conf = CONF[a.prop]
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"

    if a.replay:
        rp = json.load(open(a.replay))
        var = [v for v in conf["variants"] if v["name"] == rp["variant"]][0]
        b = build(a.prop, conf, var, a.jobs)
        if not b:
            return 1 if REJECTED and rp["stream"] == "interface" else 2
        if rp["stream"] == "interface":
            os.unlink(b)
            return 0
        d = tempfile.mkdtemp(prefix="vh-")
        try:
            rc = subprocess.call([b, "--page", d + "/page", "--out", d + "/out", "--tier", rp["tier"], "--seed", str(rp["seed"]),
                                  "--only", "%s:%d" % (rp["stream"], rp["idx"])], env=env_for(var, d), cwd=d)
            txt = open(d + "/out", encoding="latin1").read() if os.path.exists(d + "/out") else ""
            print(txt)
            return 1 if rc != 0 or '"t":"fail"' in txt else 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
            os.unlink(b)

    total = {"fails": [], "counts": {}, "samples": [], "evals": 0, "cases": 0, "notes": []}
    hashes = set()
    per_variant = {}
    ok = True
    bins = []
    try:
        for var in conf["variants"]:
            if var.get("thorough_only") and tier != "thorough":
                continue
            tb = time.time()
            b = build(a.prop, conf, var, a.jobs)
            if not b and REJECTED:
                src, err, log = REJECTED[0]
                total["fails"].append({"stream": "interface", "idx": 0, "key": "interface/does not compile", "variant": var["name"],
                                       "detail": err[:600], "case": "compiling %s" % os.path.relpath(src, VERIF), "log": log})
                break
            if not b:
                return 2
            bins.append(b)
            tr = time.time()
            nshard = var.get("shards", a.jobs)
            d = tempfile.mkdtemp(prefix="vh-%s-" % a.prop)
            try:
                with cf.ThreadPoolExecutor(nshard) as ex:
                    rs = list(ex.map(lambda i: run_shard(b, var, tier, a.seed, i, nshard, d, var.get("scale", 1), a.cap), range(nshard)))
            finally:
                shutil.rmtree(d, ignore_errors=True)
            ev = 0
            for r in rs:
                for f in r["fails"]:
                    f["variant"] = var["name"]
                total["fails"] += r["fails"]
                for k, v in r["counts"].items():
                    total["counts"][k] = total["counts"].get(k, 0) + v
                total["samples"] += r["samples"]
                total["evals"] += r["evals"]; total["cases"] += r["cases"]; ev += r["evals"]
                total["notes"] += r["notes"]
                if not r["ended"] and not r["fails"]:
                    ok = False
                hashes |= r.get("hashes", set())
            per_variant[var["name"]] = {"evaluations": ev, "build_s": round(tr - tb, 1), "run_s": round(time.time() - tr, 1)}
    finally:
        for b in bins:
            try:
                os.unlink(b)
            except OSError:
                pass

    # verdicts
    known = [k for k in load_known() if k["property"] == a.prop]
    viol, seen_known = {}, {}
    for f in total["fails"]:
        k = next((k for k in known if k["key"] == f["key"]), None)
        if k:
            seen_known.setdefault(k["key"], k)
        else:
            viol.setdefault(f["key"], []).append(f)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/%s-*.json" % a.prop):
        os.unlink(f)
    n = 0
    for key, fs in list(viol.items())[:12]:
        f = min(fs, key=lambda x: len(x.get("case", "")))
        n += 1
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, n))
        json.dump({"property": a.prop, "variant": f["variant"], "stream": f["stream"], "idx": f["idx"], "seed": a.seed, "tier": tier,
                   "key": key, "detail": f.get("detail"), "case": f.get("case"), "log": f.get("log", "")}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  %s (x%d)\n  case: %s\n  %s" % (key, len(fs), f.get("case", "")[:600], f.get("detail", "")[:900]))

    short = []
    for k, need in conf.get("require", {}).items():
        got = total["counts"].get(k, 0)
        if a.cap == 0 and got < need:
            short.append("%s: observed %d, need %d" % (k, got, need))
    samples, per = [], {}
    for s in total["samples"]:
        if per.get(s["stream"], 0) < 1 and len(samples) < 24:
            per[s["stream"]] = per.get(s["stream"], 0) + 1
            samples.append("%s: %s" % (s["stream"], s["s"]))
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": total["evals"], "distinct_nontrivial": len(hashes), "rule": conf["rule"],
            "samples": samples or ["(none)"], "cases": total["cases"], "observed": dict(sorted(total["counts"].items())),
            "variants": per_variant,
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "known_findings_seen": sorted(seen_known), "notes": total["notes"][:20],
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % a.prop, "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d violation keys, %.1f s %s" % (
        a.prop, tier, a.seed, total["cases"], total["evals"], len(hashes), len(viol), time.time() - t0, json.dumps(per_variant)))
    for x in total["notes"][:5]:
        print("note:", x)
    if viol:
        return 1
    if short or not ok or total["evals"] == 0:
        print("INCONCLUSIVE: " + ("; ".join(short) or "a shard did not finish"))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
