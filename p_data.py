"""Data: C16 windows, C17 remote controls, C18 representations of commands."""
import json
import os
import random
from vlib import ToolError, parallel
from p_recv import HZ, export_tables, freqs, tset
from p_front import Job, done, front, write


def judge(c, recs, mode, procs=2):
    front(c, recs, mode, procs, module="TraceData")


# ------------------------------------------------------------------ C16
def c16(c):
    q = c.quick
    r = Job()
    rnd = random.Random(c.seed)
    fr = sorted(set(HZ + [10_007, 12_345, 36_000, 40_000, 56_000, 100_000, 333_333, 8_000_000, 100_000_000, 480_000_000]
                    + [rnd.randrange(10_000, 200_000) for _ in range(6 if q else 60)]
                    + [rnd.randrange(200_000, 100_000_000) for _ in range(6 if q else 60)]))

    def mc():
        c.mc("MCSpans", "SPECIFICATION Spec\nCONSTANTS\n  MAXUS = %d\n  TOLS = {0, 25, 60}\n  N = 3\n  FLO = 10000\n  FHI = %d\n"
             "  STEP = %d\nINVARIANTS Direct StepsRight ProtocolWindows\nCHECK_DEADLOCK FALSE\n"
             % ((3, 40_000, 41) if q else (6, 200_000, 1)), "MCSpans", 4, 3000)

    def mc_hi():
        c.mc("MCSpans", "SPECIFICATION Spec\nCONSTANTS\n  MAXUS = 1\n  TOLS = {0}\n  N = 1\n  FLO = 40000\n  FHI = 480000000\n"
             "  STEP = %d\nINVARIANTS ProtocolWindows\nCHECK_DEADLOCK FALSE\n" % (479_999 if q else 9_973), "MCSpans_hi", 2, 3000)

    def gen():
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  FREQS = %s\n  MAXUS = %d\n  TOLS = {0, 25, 60}\n  N = 3\n  RANDOM = %d\n"
               "CHECK_DEADLOCK FALSE\n" % (tset(fr), 3 if q else 6, 400 if q else 20_000))
        ok, out = c.tlc("GenSpans", cfg, workers=1, timeout=3000)
        return write(c, "spans.txt", [
            "%s %d %s %s %d %s" % (d["p"], d["f"], ",".join(map(str, d["us"])), ",".join(map(str, d["tol"])), d["over"],
                                   " ".join("%d:%d" % tuple(x) for x in d["steps"]))
            for d in (json.loads(x[5:]) for x in c.prints(out, "CASE "))])
    parallel(lambda: c.build("data"), r("g", gen), mc, mc_hi)
    c.log("built, model checked and generated")
    s = ["--seed", c.seed]
    c.run("data", "span", *s, "--cases", r["g"], timeout=3000)
    c.run("data", "span", *s, "--n", 120_000 if q else 10_000_000, "--secs", 10 if q else 900, timeout=3000)
    recs = c.run("data", "span", *s, "--record", 300 if q else 5000)
    if not c.viols:
        judge(c, recs, "span")
    return done(c, "tables of nominal lengths and tolerances (the protocols' at swept and random frequencies, all small ones, "
                   "random ones) with every length up to the last window or all lengths around the window ends, for four "
                   "clock types; distinct by table and frequency",
                ["frequencies of at least 10 kHz for the protocols; whether zero is valid is judged for the protocols only"])


# ------------------------------------------------------------------ C17, C18
def gen_data(c, n):
    ok, out = c.tlc("GenData", "SPECIFICATION Spec\nCONSTANT RANDOM = %d\nINVARIANTS IdsInverse RemotesInverse\n"
                    "CHECK_DEADLOCK FALSE\n" % n, workers=1, timeout=3000)
    if not ok:
        raise ToolError("GenData: the specification is inconsistent")
    rem = write(c, "remotes.txt", [x for k in ("R ", "D ", "E ", "N ") for x in c.prints(out, k)])
    cre = write(c, "creates.txt", [x for k in ("I ", "C ") for x in c.prints(out, k)])
    frames = []
    for x in c.prints(out, "CASE "):
        d = json.loads(x[5:])
        frames.append("%s %s %d %d %s %s" % (d["p"], "".join(map(str, reversed(d["b"]))), d["g"], d["ok"],
                                             ".".join(map(str, d["v"])), ".".join(map(str, d["any"])) or "-"))
    return rem, cre, write(c, "frames.txt", frames)


def c17(c):
    q = c.quick
    r = Job()
    fr = freqs(c, 4 if q else 20)
    parallel(lambda: c.build("data"), r("d", lambda: gen_data(c, 100)), r("t", lambda: export_tables(c, fr)))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--remotes", r["d"][0], "--seed", c.seed]
    c.run("data", "remote", *a, "--sweep", 1)
    c.run("data", "remote", *a, "--n", 60_000 if q else 5_000_000, "--secs", 10 if q else 900, timeout=3000)
    recs = c.run("data", "remote", *a, "--record", 200 if q else 4000)
    if not c.viols:
        judge(c, recs, "remote")
    return done(c, "every address and code of every remote and every action, and receivers of each kind with a remote attached "
                   "hearing its own and foreign commands; distinct by edges and lengths",
                ["the actions known today (the type is open)"])


def c18(c):
    q = c.quick
    r = Job()
    parallel(lambda: c.build("data"), r("d", lambda: gen_data(c, 300 if q else 10_000)),
             r("t", lambda: export_tables(c, [20_000])))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("data", "cmd", *a, "--cases", r["d"][2])
    c.run("data", "create", *a, "--cases", r["d"][1])
    c.run("data", "create", *a, "--n", 12_000 if q else 300_000, "--secs", 6 if q else 300, timeout=3000)
    c.run("data", "cmd", *a, "--n", 8_000 if q else 1_000_000, "--secs", 6 if q else 600, timeout=3000)
    c.run("data", "cmd", *a, "--sweep", 1, "--most", 384 if q else 4096, "--secs", 8 if q else 2000, timeout=3000)
    recs = c.run("data", "cmd", *a, "--record", 300 if q else 5000)
    cr = c.run("data", "create", *a, "--record", 300 if q else 5000)
    if not c.viols:
        judge(c, recs, "cmd")
        judge(c, cr, "create")
    return done(c, "frames valid, almost valid and random of every protocol, every frame of RC5, RC6 and (thorough: all 2^32) of "
                   "the NEC variants, addresses and command numbers around every limit; evaluations are batches",
                ["raw bits of the generic form are judged for Denon only", "packing of commands whose fields fit the frame"])


CHECKS = {"C16": (c16, "model_checking"), "C17": (c17, "model_checking"), "C18": (c18, "model_checking")}
