#!/usr/bin/env python3
"""Mutation campaign for the Python layer:  mutate_py.py COUNT SEED FILE...
Small random changes in a scratch copy which still can be imported go through the checks of the properties
anchored in the file; those which no check notices are printed."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT, COPY = "/tmp/pymutwt", "/tmp/pymutverif"
SWAPS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r" < ", " <= "), (r" > ", " >= "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
         (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"-1\b", "0"),
         (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bany\b", "all"), (r"\ball\b", "any"), (r"\.row\b", ".col"), (r"\.col\b", ".row"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bz\b", "x"),
         (r"\.T\b", ""), (r"\.copy\(\)", ""), (r"\bcopy\(self\)", "self"), (r"\bsorted\(", "list("), (r"\[::-1\]", ""), (r"\[:-1\]", "[:]"), (r"\[1:\]", "[:]"), (r"axis=0", "axis=1"), (r"axis=1", "axis=0"),
         (r"\bargmin\b", "argmax"), (r"\bargsort\(\)", "argsort()[::-1]"), (r"logical_or", "logical_and"), (r"logical_and", "logical_or"), (r"\bin\b", "not in"), (r"not in\b", "in"), (r"is None", "is not None"),
         (r"is not None", "is None"), (r"\bhstack\b", "vstack"), (r"^(\s+)[\w.\[\]:, ]+ (=|\+=) [^=].*$", r"\1pass"), (r"^(\s+)[\w.]+\(.*\)$", r"\1pass"), (r"^(\s+)if .*:$", r"\1if True:"),
         (r"^(\s+)if .*:$", r"\1if False:"), (r"\+=", "-="), (r"\babs\(", "("), (r"\.real\b", ".imag"), (r"\bconj\b", "real"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\*\*2", ""), (r"elif ", "if ")]


def mutants(text):
    lines = text.split("\n")
    inside = set()      # lines of functions, without their documentation
    for node in ast.walk(ast.parse(text)):
        if isinstance(node, ast.FunctionDef):
            body = node.body[1:] if isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], "value", None), ast.Constant) else node.body
            for b in body:
                inside |= set(range(b.lineno - 1, b.end_lineno))
            for d in node.args.defaults:
                inside |= set(range(d.lineno - 1, d.end_lineno))
    out = []
    for n in sorted(inside):
        code = re.sub(r'"[^"]*"|\'[^\']*\'', lambda m: "\0" * len(m.group(0)), lines[n].split("#")[0])
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                new = lines[n][:m.start()] + m.expand(b) + lines[n][m.end():]
                if new != lines[n] and "\0" not in m.expand(b):
                    out.append((n, new))
    return lines, out


def main():
    count, r = int(sys.argv[1]), random.Random(int(sys.argv[2]))
    for d in (WT, COPY):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    shutil.copytree(VERIF, COPY, ignore=shutil.ignore_patterns(".git", "seeded", "build"))
    anchors = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            anchors.setdefault(f, []).append(p["id"])
    files = sys.argv[3:] or [f for f in anchors if f.startswith("pybinding/")]
    weights = {f: len(mutants(open(os.path.join(WT, f)).read())[1]) for f in files}
    done, i = set(), 0
    while i < count:
        f = r.choices(list(weights), list(weights.values()))[0]
        text = open(os.path.join(WT, f)).read()
        lines, ms = mutants(text)
        n, new = r.choice(ms)
        if (f, n, new) in done:
            continue
        done.add((f, n, new))
        old, lines[n] = lines[n], new
        try:
            ast.parse("\n".join(lines))
        except SyntaxError:
            continue
        i += 1
        open(os.path.join(WT, f), "w").write("\n".join(lines))
        t0, res = time.time(), "SURVIVED"
        env = dict(os.environ, VERIF_REPO=WT)
        for c in anchors.get(f, []):
            if c < "C20":
                continue
            p = subprocess.run([sys.executable, "check.py", c], cwd=COPY, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode == 1:
                res = "caught by " + c
                break
            if p.returncode != 0:
                res = "CHECK ERROR in %s: %s" % (c, p.stdout[-300:])
                break
        print("[%d s] %s  %s:%d\n   - %s\n   + %s" % (time.time() - t0, res, f, n + 1, old.strip(), new.strip()), flush=True)
        open(os.path.join(WT, f), "w").write(text)


if __name__ == "__main__":
    main()
