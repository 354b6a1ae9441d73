#!/usr/bin/env python3
"""mutate.py N SEED [FILE-REGEX]: finds weak spots of the checks.
Makes N random one-line changes to the library (each in a scratch clone), runs the quick checks that should notice and
prints the changes that none of them noticed.  Every survivor has to be judged by hand: it is either without effect or
a gap in the checks."""
import os, random, re, subprocess, sys, json, time

S = os.environ.get("MUT", "/tmp/mutrepo")
V = os.environ.get("MUT_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CORE = "include/papilio/core.hpp"
# file, first line regex, last line regex, checks
ZONES = [
    ("include/papilio/utf/stralgo.hpp", None, None, "C10 C11"),
    ("include/papilio/utf/codepoint.hpp", None, None, "C10 C11 C05"),
    ("include/papilio/utf/codepoint.inl", None, None, "C10 C11"),
    ("include/papilio/utf/string.hpp", None, None, "C10 C12 C11"),
    ("include/papilio/container.hpp", None, r"^class fixed_vector :", "C13"),
    ("include/papilio/container.hpp", r"^class fixed_vector :", None, "C14"),
    ("include/papilio/memory.hpp", None, None, "C15"),
    ("include/papilio/utility.hpp", r"class index_range", None, "C24 C23 C09 C15 C20"),
    ("include/papilio/access.hpp", None, None, "C09 C24"),
    ("include/papilio/accessor/ranges.hpp", None, None, "C09"),
    ("include/papilio/accessor/tuple.hpp", None, None, "C09"),
    ("include/papilio/accessor/vocabulary.hpp", None, None, "C09"),
    ("include/papilio/formatter/chrono.hpp", None, None, "C23 C22"),
    ("include/papilio/formatter/tuple.hpp", None, None, "C23"),
    ("include/papilio/formatter/vocabulary.hpp", None, None, "C23"),
    ("include/papilio/formatter/filesystem.hpp", None, None, "C23"),
    ("src/formatter/filesystem.cpp", None, None, "C23"),
    ("include/papilio/color.hpp", None, None, "C21"),
    ("include/papilio/format.hpp", None, None, "C02"),
    ("src/print.cpp", None, None, "C16 C21"),
    ("src/os/general.cpp", None, None, "C16"),
    (CORE, r"class basic_variable", r"class bad_handle_cast", "C08"),
    (CORE, r"class bad_handle_cast", r"class format_args_base", "C15 C09 C17"),
    (CORE, r"class format_args_base", r"struct has_adl_format", "C15 C07"),
    (CORE, r"struct has_adl_format", r"^class basic_format_context", "C17 C22"),
    (CORE, r"^class basic_format_context", r"^class basic_format_parse_context", "C06 C05 C03 C02"),
    (CORE, r"^class basic_format_parse_context", r"^class script_base", "C07 C17 C01"),
    (CORE, r"^class script_base", r"^class basic_interpreter :", "C08 C09 C07 C01"),
    (CORE, r"^class basic_interpreter :", r"class fmt_parser_base", "C08 C09 C07 C01"),
    (CORE, r"class fmt_parser_base", r"^class std_formatter_base", "C03 C05 C04 C01"),
    (CORE, r"^class std_formatter_base", r"^class float_formatter", "C03 C05"),
    (CORE, r"^class float_formatter", r"^class codepoint_formatter", "C04"),
    (CORE, r"^class codepoint_formatter", r"^class enum_formatter", "C05 C06"),
    (CORE, r"^class enum_formatter", r"^class formatter<T, CharT>", "C23"),
    (CORE, r"^class formatter<utf::codepoint, CharT>", None, "C03 C05 C06 C23 C22"),
]
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+(\w+);", r";"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"),
    (r"\bif\((?!constexpr)(.*)\)", r"if(!(\1))"), (r"std::move\((\w+)\)", r"\1"), (r"\bbreak;", ";"), (r"\breturn false;", "return true;"),
    (r"!(\w)", r"\1"), (r"std::min", "std::max"), (r"std::max\(", "std::min("), (r" % ", " / "), (r"\+= ", "-= "),
]
STMT = re.compile(r"^\s+[\w:\.\->]+(\(.*\))?;\s*$|^\s+[\w\.\->]+ [\+\-]?= .*;\s*$")


def zone_lines(z):
    lines = open(os.path.join(S, z[0]), newline="").read().split("\n")
    a = next((i for i, l in enumerate(lines) if z[1] and re.search(z[1], l)), 0)
    b = next((i for i, l in enumerate(lines) if z[2] and i > a and re.search(z[2], l)), len(lines))
    return lines, a, b


def candidates(z):
    lines, a, b = zone_lines(z)
    out = []
    for i in range(a, b):
        l = lines[i]
        t = l.strip()
        if not t or t.startswith(("//", "*", "/*", "#", "PAPILIO_ASSERT", "template", "using", "requires", "static_assert", "namespace", "typename", "throw")):
            continue
        if "PAPILIO_ASSERT" in l or "noexcept(" in l or "PAPILIO_UNREACHABLE" in l or "constexpr(" in l or "enable" in l or "concept" in l:
            continue
        for pat, rep in OPS:
            if re.search(r"template|operator", l):
                continue
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if new != l:
                    out.append((i, new))
        if STMT.match(l) and not t.startswith(("return", "break", "using", "CharT", "friend")) and "= default" not in l and "= delete" not in l:
            out.append((i, re.sub(r"\S.*", ";", l, count=1)))
    return out


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    rx = sys.argv[3] if len(sys.argv) > 3 else "."
    if not os.path.isdir(S):
        subprocess.check_call(["git", "clone", "-q", "/repo", S])
    subprocess.check_call(f"cd {S} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True)
    rnd = random.Random(seed)
    zones = [z for z in ZONES if re.search(rx, z[0] + " " + z[3])]
    cands = []
    for z in zones:
        for c in candidates(z):
            cands.append((z, c))
    # the same number of changes per zone, not per line
    per = {}
    for z, c in cands:
        per.setdefault(z, []).append(c)
    print(f"{len(cands)} candidates in {len(per)} zones", flush=True)
    done = 0
    while done < n:
        z = rnd.choices(list(per), weights=[len(v) ** 0.6 for v in per.values()])[0]
        i, new = rnd.choice(per[z])
        lines, _, _ = zone_lines(z)
        old = lines[i]
        lines[i] = new
        path = os.path.join(S, z[0])
        open(path, "w", newline="").write("\n".join(lines))
        t = time.time()
        tag = f"{z[0].split('/')[-1]}:{i + 1}: {old.strip()[:110]}  ==>  {new.strip()[:110]}"
        try:
            p = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I" + S + "/include", "-x", "c++", "-"], input='#include <papilio/papilio.hpp>\n#include <papilio/xchar.hpp>\nint main(){ (void)papilio::format("{} {0:x}", 1); }', text=True, capture_output=True)
            if p.returncode:
                continue
            done += 1
            verdict = "SURVIVED"
            for c in z[3].split():
                r = subprocess.run(["timeout", "900", "python3", V + "/run_check.py", c, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=S), text=True, capture_output=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    verdict = f"caught {c}"
                    break
                if r.returncode not in (0, 1) or (r.returncode == 1):
                    verdict = f"build {c} rc={r.returncode}"
                    break
            print(f"{verdict} {time.time() - t:.0f}s [{z[3]}] {tag}", flush=True)
        finally:
            subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])


main()
