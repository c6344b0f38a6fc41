#!/usr/bin/env python3
"""Mutation campaign:  mutate.py COUNT SEED [FILE...]
Small random changes of the code in a scratch copy; those which build and pass the tests go through the
checks of the properties anchored in the file, until one of them raises an alarm.  Survivors are printed
(they are equivalent, outside of all properties, or a gap)."""
import json
import os
import random
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import seedtool
seedtool.WT = WT = "/tmp/mutwt"
BUILD = "/tmp/mutbuild"

SWAPS = [(r"(?<![<\-=!>])<=(?!=)", "<"), (r"(?<![<\-=!>])>=(?!=)", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+= ", "-= "), (r"-= ", "+= "), (r" < ", " <= "), (r" > ", " >= "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\brows\b", "cols"), (r"\bcols\b", "rows"),
         (r"\brow\b", "col"), (r"\bcol\b", "row"), (r"\bstart\b", "end"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfrom\b", "to"), (r"\bto_", "from_"),
         (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"!(?=[a-z])", ""), (r"if \((.*)\) \{", r"if (true) {"), (r"if \((.*)\) \{", r"if (false) {"),
         (r"\.real\(\)", ".imag()"), (r"\.conjugate\(\)", ""), (r"\.adjoint\(\)", ".transpose()"), (r"num::conjugate", ""), (r"std::abs|\babs\b", ""),
         (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bm\b", "n"), (r"\bn\b", "m"), (r"\bcontinue;", ""), (r"\bbreak;", ""),
         (r"\bsys_start\b", "ham_start"), (r"\bham_start\b", "sys_start"), (r"\bleft\b", "right"), (r"\bany_of\b", "all_of"), (r"\.any\(\)", ".all()"), (r"\.all\(\)", ".any()"),
         (r"^(\s+)[a-z_]+[\w.>\-]*\(.*\);$", r"\1;"), (r"^(\s+)[\w.\[\]>\-]+ (=|\+=) .*;$", r"\1;"), (r"\+\+", "--")]


def mutants(path, r):
    lines = open(path).read().split("\n")
    out = []
    comment = False
    for n, line in enumerate(lines):
        s = line.strip()
        if "/*" in s:
            comment = True
        if comment or s.startswith(("//", "#", "*", "template", "using", "namespace", "static_assert", "assert", "extern")) or not s:
            if "*/" in s:
                comment = False
            continue
        code = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), line.split("//")[0])
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                new = line[:m.start()] + m.expand(b) + line[m.end():]
                if new != line and "\0" not in m.expand(b):
                    out.append((n, line, new))
    return lines, out


def main():
    count, sd = int(sys.argv[1]), int(sys.argv[2])
    r = random.Random(sd)
    anchors = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            anchors.setdefault(f, []).append(p["id"])
    files = sys.argv[3:] or [f for f in anchors if f.startswith("cppcore/")]
    seedtool.fresh()
    seedtool.build()
    done = set()
    weights = {}
    for f in files:
        weights[f] = len(mutants(os.path.join(WT, f), r)[1]) * (0.25 if f.endswith(".hpp") else 1)
    i = 0
    while i < count:
        f = r.choices(list(weights), list(weights.values()))[0]
        lines, ms = mutants(os.path.join(WT, f), r)
        n, old, new = r.choice(ms)
        if (f, n, new) in done:
            continue
        done.add((f, n, new))
        i += 1
        lines[n] = new
        open(os.path.join(WT, f), "w").write("\n".join(lines))
        what = "%s:%d\n   - %s\n   + %s" % (f, n + 1, old.strip(), new.strip())
        t0 = time.time()
        b = seedtool.build()
        in_lib = os.path.basename(f) not in ("Bounds.cpp", "Compute.cpp", "collectors.cpp")
        t = ["-"] if b.returncode else seedtool.tests()
        if b.returncode:
            res = "no build"
        elif not t or not t[0].startswith("26 passed"):
            res = "tests"
        else:
            checks = anchors.get(f, [])
            more = [c for c in ("C06", "C04", "C09", "C05") if c not in checks] if "/kpm/" not in f and "solver" not in f.lower() else []
            res = "SURVIVED"
            env = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD=BUILD)
            for c in checks + more:
                p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), c], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, universal_newlines=True)
                if p.returncode == 1:
                    res = "caught by " + c
                    break
                if p.returncode == 2:
                    res = "build error" if "BUILD ERROR" in p.stdout else "CHECK ERROR in %s: %s" % (c, p.stdout[-500:])
                    if res != "build error":
                        break
                    break
        print("[%d s] %s  %s" % (time.time() - t0, res, what), flush=True)
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
        for o in os.listdir(BUILD + "/bin") if os.path.isdir(BUILD + "/bin") else []:
            os.unlink(os.path.join(BUILD, "bin", o))


if __name__ == "__main__":
    main()
