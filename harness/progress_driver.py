#!/usr/bin/env -S python3-vt -W ignore
"""The progress display with a clock which is set by hand: the terminal and the log file are read back"""
import datetime as real_datetime
import io
import os
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *
from pybinding.utils import progressbar

CLOCK = [0]


class Moment(real_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return real_datetime.datetime(2020, 1, 1) + real_datetime.timedelta(seconds=CLOCK[0], microseconds=500000)


class FakeDatetime:
    datetime, timedelta = Moment, real_datetime.timedelta


class FakeTime:
    """Another way to read the clock"""
    def __getattr__(self, name):
        if name in ("time", "monotonic", "perf_counter"):
            return lambda: CLOCK[0] + 0.5
        raise DriverError("clock: " + name)


progressbar.datetime = FakeDatetime
if hasattr(progressbar, "time"):
    progressbar.time = FakeTime()


def terminal(text):
    """The lines on the screen"""
    lines, row, col = [[]], 0, 0
    for c in text:
        if c == "\r":
            col = 0
        elif c == "\n":
            row, col = row + 1, 0
            if row == len(lines):
                lines.append([])
        else:
            line = lines[row]
            line.extend(" " * (col + 1 - len(line)))
            line[col] = c
            col += 1
    lines = ["".join(line) for line in lines]
    return lines[:-1] if not lines[-1] else lines


SPAN = r"(?:(\d+) days?, )?(\d+):(\d\d):(\d\d)"


def seconds(groups):
    d, h, m, s = (int(g or 0) for g in groups)
    return d * 86400 + h * 3600 + m * 60 + s


def read(line, kind):
    m = re.fullmatch(r"<line (\d+)>\s*", line)
    if m:
        return ["text", int(m.group(1))]
    if kind == "default":
        m = re.fullmatch(r"Progress +(\d+)% \[(/*)( *)\] Elapsed: " + SPAN + " / ETA: (?:--:--:--|" + SPAN + r")\s*", line)
        if not m:
            return ["other", line]
        g = m.groups()
        eta = -1 if g[8] is None else seconds(g[7:11])
        return ["bar", int(g[0]), [[len(g[1]), len(g[1]) + len(g[2])]], seconds(g[3:7]), eta, len(line)]
    m = re.fullmatch(r"(\d+)% \|(#*)(-*)\| Elapsed: " + SPAN + r" \((=*)(_*)\)ETA: (?:--:--:--|" + SPAN + r")\s*", line)
    if not m:
        return ["other", line]
    g = m.groups()
    eta = -1 if g[10] is None else seconds(g[9:13])
    return ["bar", int(g[0]), [[len(g[1]), len(g[1] + g[2])], [len(g[7]), len(g[7] + g[8])]], seconds(g[3:7]), eta, len(line)]


class World:
    def __init__(self, folder):
        self.folder = folder
        self.out, self.err, self.own = io.StringIO(), io.StringIO(), io.StringIO()
        self.bar = None


def seen(w, extra):
    p = w.bar
    shown = {"own": w.own, "stdout": w.out, "none": None}[w.display]
    log = open(w.log).read() if w.log else ""
    out = [] if w.display == "stdout" else [read(v, w.kind)[1] for v in w.out.getvalue().splitlines()]
    return dict(extra, running=bool(p.running), value=int(p.value), captured=not (sys.stdout is w.out and sys.stderr is w.err),
                screen=[read(v, w.kind) for v in terminal(shown.getvalue())] if shown else [],
                log=[read(v, w.kind) for v in log.splitlines()], out=out, err=[read(v, w.kind)[1] for v in w.err.getvalue().splitlines()])


def act(w, o):
    op, p = o["op"], w.bar
    if op == "make":
        w.display, w.kind = o["display"], o["kind"]
        w.log = os.path.join(w.folder, "log") if o["file"] else ""
        widgets = None
        if w.kind == "own":
            widgets = [progressbar.percentage("{:.0%}"), " ", progressbar.bar("#", "|", "|", "-"), " ", progressbar.elapsed(), " ", progressbar.bar("=", "(", ")", "_"), progressbar.eta()]
        kw = {"widgets": widgets} if widgets else {}
        w.bar = progressbar.ProgressBar(o["size"], width=o["width"], stream={"own": w.own, "stdout": w.out, "none": None}[w.display], filename=w.log, **kw)
        return {}
    if op == "tick":
        CLOCK[0] += o["seconds"]
    elif op == "start":
        p.start()
    elif op == "enter":
        return {"same": p.__enter__() is p}
    elif op == "exit":
        p.__exit__(None, None, None)
    elif op == "update":
        p.update(o["value"])
    elif op == "add":
        p += o["value"]
        if p is not w.bar:
            raise RuntimeError("another progress bar")
    elif op == "print":
        for n in o["lines"]:
            if o["how"] == "print":
                print("<line %d>" % n, file=None if o["stream"] == "out" else sys.stderr)
            else:
                (sys.stdout if o["stream"] == "out" else sys.stderr).write("<line %d>\n" % n)
    else:
        getattr(p, op)()
    return {}


def one_op(w, o):
    streams = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = w.streams
    try:
        extra = act(w, o)
        return seen(w, extra)
    finally:
        w.streams = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = streams


def run(sc):
    folder = tempfile.mkdtemp(prefix="progress-")
    try:
        w = World(folder)
        w.streams = w.out, w.err
        CLOCK[0] = 0
        return run_ops(sc, w, one_op)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


main_loop(run)
