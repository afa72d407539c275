"""Front ends: C10 agreement, C11 polling, C12 multi receivers, C15 time stamps,
C19 no panic, C20 decoder contract, C23 pin faults."""
import json
import os
from vlib import ToolError, parallel
from p_recv import ALL, ASSUME, HZ, export_tables, freqs, gen_link, lives, show, tset, validate

GF = HZ + [40_000, 100_000_000]
KINDS = ["clean", "corrupt", "abort", "splice", "repeat", "noise"]
SIM = ("  Record = TRUE\n  Tag = \"t\"\n  BitChoices <- SimBits\n  Thin <- One1\n"
       "  GoodPick <- SimGood\n  SpliceBits <- SimBits\n  JoinLens <- SimJoin\n  NoiseChoices <- SimNoise\nCHECK_DEADLOCK FALSE\n")


def write(c, name, lines):
    if not lines:
        raise ToolError("no behaviours generated: " + name)
    path = os.path.join(c.work, name)
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    c.sample("TLC behaviour: " + lines[0])
    return path


def front(c, recs, mode, procs=4, name=None, module="TraceFront"):
    """TLC judges recorded runs of a front end (one state per run)."""
    recs = [r for r in recs if r.startswith("REC ")]
    if not recs:
        raise ToolError("nothing recorded")
    parts = [recs[k::procs] for k in range(procs) if recs[k::procs]]

    def one(k):
        path = os.path.join(c.work, "front_%s_%d.ndjson" % (name or mode, k))
        with open(path, "w") as fh:
            fh.write("\n".join(r[4:] for r in parts[k]) + "\n")
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Mode = \"%s\"\n  File = \"%s\"\n"
               "INVARIANT Accepted\nCHECK_DEADLOCK FALSE\n") % (mode, path)
        ok, out = c.tlc(module, cfg, "%s_%s_%d" % (module, name or mode, k), 2)
        if not ok:
            i = int(out.rsplit("/\\ i = ", 1)[1].split()[0])
            c.viol("run of the code rejected by TLC: " + parts[k][i - 1][4:], "TLC %s %s" % (module, mode))
            return
        got = int(out.rsplit(" distinct states found", 1)[0].rsplit(" ", 1)[1])
        if got != len(parts[k]):
            raise ToolError("trace validation consumed %d of %d runs" % (got, len(parts[k])))
        with c.lock:
            c.traces += got
    parallel(*[lambda k=k: one(k) for k in range(len(parts))])


def done(c, rule, extra=(), **more):
    cov = {"evaluations": c.stats.get("cases", 0), "distinct_nontrivial": c.stats.get("distinct", 0), "rule": rule}
    cov.update(more)
    c.traces += c.stats.get("tlc_traces", 0)
    return c.finish(cov, ASSUME + list(extra))


class Job(dict):
    def __call__(self, key, fn):
        def run():
            self[key] = fn()
        return run


# ------------------------------------------ protocols of the user's own
def custom_mc(c, kind):
    n = 4 if c.quick else 5
    args, ans, slots = "{0, 1, 40000}", "{0, 1, 2, 3, 11}", 1
    if kind == "poll":
        args, n = "{0}", 6 if c.quick else 8
    elif kind == "multi":
        args, ans, slots, n = "{1}", "{0, 2, 4, 11}", 2, n - 1
    elif kind == "plain":
        args, ans = "{0, 1, 5, 7}", "{0, 4, 11}"
    elif kind == "w16":
        args, ans = "{0, 3, 300, 60000}", "{0, 4, 11}"
    c.mc("MCCustom", "SPECIFICATION Spec\nCONSTANTS\n  KIND = \"%s\"\n  CM = 4\n  ARGS = %s\n  ANSWERS = %s\n  MAXCALLS = %d\n"
         "  SLOTS = %d\nINVARIANTS NeverAfterEnd NothingLost PolledTime Alternating StampedTime Faithful\n"
         "CHECK_DEADLOCK FALSE\n" % (kind, args, ans, n, slots), "MCCustom_" + kind, 2, 1500)


def custom(c, *kinds):
    """Front ends with a decoder whose answers the specification chooses."""
    q = c.quick
    r = Job()
    # after the other bins are built; a crate whose traits have changed is not judged here
    if not c.try_build("custom"):
        return

    def gen():
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  STEPS = %d\n  KINDS = %s\nCHECK_DEADLOCK FALSE\n" % (15 if q else 40, tset(kinds)))
        lines = []
        for x in c.simulate("GenCustom", cfg, 400 if q else 6000, 60, 2):
            d = json.loads(x)
            lines.append("%s %d %s" % (d["kind"], d["slots"], " ".join(
                "%d:%d:%d:%s:%s:%s" % (e[0], e[1], e[2], *(",".join(str(v) for v in e[k]) for k in (3, 4, 5)))
                for e in d["ev"])))
        return write(c, "custom.txt", lines)
    parallel(r("g", gen), *[lambda k=k: custom_mc(c, k) for k in kinds])
    ks = ",".join(kinds)
    c.run("custom", ks, "--seed", c.seed, "--cases", r["g"])
    c.run("custom", ks, "--seed", c.seed, "--n", 30_000 if q else 3_000_000, "--secs", 5 if q else 300, timeout=3000)
    recs = c.run("custom", ks, "--seed", c.seed, "--record", 40 if q else 400)
    if not c.viols:
        front(c, recs, "custom", 2)
    c.log("protocols of the user's own: " + ks)


# ------------------------------------------------------------------ C10
def c10(c):
    fr = freqs(c, 4 if c.quick else 20)
    r = Job()
    parallel(lambda: c.build("front", "multi"),
             r("t", lambda: export_tables(c, fr)),
             r("g", lambda: gen_link(c, ALL, HZ, KINDS, 4, 60 if c.quick else 1200, 4)),
             r("m", lambda: gen_multi(c, 25 if c.quick else 500)))
    c.log("built and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("front", "agree", *a, "--cases", r["g"])
    c.run("front", "agree", *a, "--n", 60_000 if c.quick else 6_000_000, "--secs", 12 if c.quick else 900, timeout=3000)
    c.run("multi", "run", *a, "--cases", r["m"])
    c.run("multi", "run", *a, "--n", 60_000 if c.quick else 4_000_000, "--secs", 6 if c.quick else 600, timeout=3000)
    recs = c.run("front", "agree", *a, "--record", 120 if c.quick else 2000)
    if not c.viols:
        front(c, recs, "agree")
    if not c.viols:
        custom(c, "dur", "buf", "multi")
    return done(c, "edge sequences (transmissions whole and broken, noise, also not alternating) run through every "
                   "front end and clock type; distinct by edges, lengths, protocol and frequency")


# ------------------------------------------------------------------ C11
def c11(c):
    q = c.quick
    fr = freqs(c, 4 if q else 20)
    r = Job()

    def poll_mc():
        for cm, ms, mf in ([(16, 15, 2), (7, 6, 1)] if q else [(16, 15, 2), (7, 6, 1), (64, 63, 3), (32, 31, 4)]):
            c.mc("MCPoll", "SPECIFICATION Spec\nCONSTANTS\n  CM = %d\n  MAXSINCE = %d\n  MAXFAIL = %d\n"
                 "INVARIANT PollRight\nCHECK_DEADLOCK FALSE\n" % (cm, ms, mf), "MCPoll_%d" % cm, 2)

    def phase_mc(lo, hi, st, name):
        c.mc("MCPhase", "SPECIFICATION Spec\nCONSTANTS\n  FLO = %d\n  FHI = %d\n  STEP = %d\nINVARIANT PhaseOK\n"
             "CHECK_DEADLOCK FALSE\n" % (lo, hi, st), name, 4, 1500)

    def gen(k, protos):
        fs = [10_000, 20_000, 38_000, 44_100] if q else [10_000, 10_007, 15_000, 20_000, 36_000, 38_000, 40_000, 44_100, 96_000]
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  PROTOS = %s\n  FREQS = %s\n  FRAMES = %d\nINVARIANT Received\n"
               "CHECK_DEADLOCK FALSE\n" % (tset(protos), tset(fs), 1 if q else 4))
        ok, out = c.tlc("GenPhase", cfg, "GenPhase_%d" % k, 2, 1500)
        if not ok:
            raise ToolError("GenPhase: a nominal frame is not received in the specification")
        return ["%s %d %s" % (d["p"], d["f"], " ".join("%d:%d:%s" % (e[0], e[1], show(e[2])) for e in d["ev"]))
                for d in (json.loads(x[5:]) for x in c.prints(out, "CASE "))]
    jobs = [r("t", lambda: export_tables(c, fr)), poll_mc,
            lambda: phase_mc(10_000, 40_000 if q else 100_000, 11 if q else 1, "MCPhase_lo"),
            lambda: phase_mc(40_000, 100_000_000, 99_991 if q else 3_331, "MCPhase_hi"),
            r("g0", lambda: gen(0, ALL[:5])), r("g1", lambda: gen(1, ALL[5:])),
            r("l", lambda: gen_link(c, ALL, [10_000, 20_000, 38_000, 44_100], ["clean", "corrupt", "abort", "repeat"], 3,
                                    25 if q else 400, 2))]

    def built():
        c.build("front")
        c.run("front", "wrap", "--tables", wait_tables(c), "--seed", c.seed, "--n", 8 if q else 72, timeout=1500)
    parallel(built, *jobs)
    c.log("built, model checked and generated")
    ph = write(c, "phase.txt", r["g0"] + r["g1"])
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("front", "phase", *a, "--cases", ph)
    c.run("front", "phase", *a, "--n", 40_000 if q else 3_000_000, "--secs", 8 if q else 600, timeout=3000)
    c.run("front", "poll", *a, "--cases", r["l"])
    c.run("front", "poll", *a, "--n", 20_000 if q else 1_000_000, "--secs", 8 if q else 600, timeout=3000)
    recs = c.run("front", "poll", *a, "--record", 60 if q else 1000)
    if not c.viols:
        front(c, recs, "poll")
    if not c.viols:
        custom(c, "poll")
    return done(c, "sampled level sequences, distinct by levels and poll counts: nominal frames at every sixteenth of a "
                   "phase (TLC) and at random phases, transmissions whole and broken, runs over the end of the counter",
                ["reads between two level changes number fewer than 2^32"])


def wait_tables(c):
    import time
    p = os.path.join(c.work, "tables.txt")
    for _ in range(1200):
        if os.path.exists(p) and c.stats.get("spec_table_lines"):
            return p
        time.sleep(0.1)
    raise ToolError("no tables")


# ------------------------------------------------------------------ C12
def slots(xs):
    return "|".join(".".join(str(v) for v in x) if x else "-" for x in xs)


def gen_multi(c, n, procs=4, maxops=5):
    cfg = ("SPECIFICATION GSpec\nCONSTANTS\n  TUPLES <- Tuples\n  FREQS = %s\n  MAXOPS = %d\n  Keeping <- Yes\n"
           "  Pick <- One\n  Bits <- SimBits\n  Lengths <- SimLengths\n"
           "INVARIANTS SlotDelivered SameProtocolSameResult SlotsReady\nCHECK_DEADLOCK FALSE\n"
           ) % (tset([10_000, 20_000, 38_000, 44_100, 1_000_000, 3_579_545]), maxops)
    lines = []
    for x in c.simulate("GenMulti", cfg, n, 3000, procs):
        d = json.loads(x)
        if d["ev"]:
            lines.append("%s %d %s" % (",".join(d["ps"]), d["f"],
                         " ".join("%d:%d:%s" % (e[0], e[1], slots(e[2])) for e in d["ev"])))
    return write(c, "multi.txt", lines)


def mc_multi(c, which, ops):
    c.mc("MCMulti", "SPECIFICATION MSpec\nCONSTANTS\n  TUPLES <- Tuples\n  Which = %d\n  FREQS = {20000}\n  MAXOPS = %d\n"
         "  Geo <- SmallGeo\n  AppleValid <- SmallApple\n  Lengths <- SmallLengths\n  BadLengths <- SmallBad\n"
         "INVARIANTS SlotDelivered SameProtocolSameResult SlotsReady\nCHECK_DEADLOCK FALSE\n" % (which, ops),
         "MCMulti_%d_%d" % (which, ops), 2, 3000)


def c12(c):
    q = c.quick
    fr = freqs(c, 4 if q else 20)
    r = Job()
    parallel(lambda: c.build("multi"), r("t", lambda: export_tables(c, fr)),
             r("m", lambda: gen_multi(c, 60 if q else 2500)),
             *[lambda w=w: mc_multi(c, w, 2 if q else 3) for w in range(1, 7)])
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("multi", "run", *a, "--cases", r["m"])
    c.run("multi", "run", *a, "--n", 300_000 if q else 30_000_000, "--secs", 12 if q else 1500, timeout=3000)
    recs = c.run("multi", "run", *a, "--record", 100 if q else 2000)
    if not c.viols:
        front(c, recs, "multi")
    if not c.viols:
        custom(c, "multi")
    return done(c, "lines mixing transmissions of the slots' protocols, whole and broken, and noise, for 43 tuples of 2 to 6 "
                   "protocols, four clock types, with and without a pin; distinct by tuple, frequency, edges and lengths",
                ["tuples tested: all windows of the cycle of 7 protocols, and tuples with repeated protocols"])


# ------------------------------------------------------------------ C15
def c15(c):
    q = c.quick
    fr = freqs(c, 4 if q else 20)
    r = Job()

    def mc(n):
        c.mc("MCInstant", "SPECIFICATION Spec\nCONSTANT MAXTURNS = %d\nINVARIANT InstantRight\nCHECK_DEADLOCK FALSE\n" % n,
             "MCInstant", 2)

    def gen():
        cfg = ("SPECIFICATION ISpec\nCONSTANTS\n  PROTOS = %s\n  FREQS = {20000, 40000, 1000000}\n  MAXOPS = 3\n"
               "  KINDS = {\"clean\", \"corrupt\", \"abort\", \"repeat\"}\n" % tset(ALL)) + SIM
        lines = []
        for x in c.simulate("GenInstant", cfg, 40 if q else 1200, 3000, 5):
            d = json.loads(x)
            lines.append("%s %s %d %s" % (d["kind"], d["p"], d["f"], " ".join(
                "%d:%d:%d:%d:%d" % (e[0], e[1], e[2], e[3][0], e[3][1]) for e in d["ev"])))
        return write(c, "inst.txt", lines)
    parallel(lambda: c.build("front"), r("t", lambda: export_tables(c, fr)), r("g", gen), lambda: mc(1 if q else 3))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("front", "inst", *a, "--cases", r["g"])
    c.run("front", "inst", *a, "--n", 300_000 if q else 30_000_000, "--secs", 12 if q else 1200, timeout=3000)
    recs = c.run("front", "inst", *a, "--record", 160 if q else 3000)
    if not c.viols:
        front(c, recs, "inst")
    if not c.viols:
        custom(c, "plain", "w16")
    return done(c, "edge sequences with time stamps from counters that start anywhere, pass their end, jump forward and back; "
                   "distinct by clock type, edges and stamps",
                ["steps of a wrapping counter by half its range or more are left open by the property"])


# ------------------------------------------------------------------ C19
def c19(c):
    q = c.quick
    fr = freqs(c, 4 if q else 20)
    r = Job()
    parallel(lambda: c.build("front", "tx", "mon"), r("t", lambda: export_tables(c, fr)),
             r("g", lambda: gen_link(c, ALL, GF, ["noise", "noise", "clean", "corrupt", "abort", "repeat"], 6, 60 if q else 1500, 4)),
             *mc_decoder(c, ["nec", "sbp", "denon", "rc5", "rc6"]))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("front", "chaos", *a, "--cases", r["g"])
    c.run("front", "chaos", *a, "--n", 40_000 if q else 4_000_000, "--secs", 14 if q else 1500, timeout=3000)
    lives(c, "run", "--tables", r["t"], "--seed", c.seed, "--mode", "none", "--protos", ",".join(ALL))
    c.run("tx", "chaos", "--seed", c.seed, "--n", 3_000 if q else 300_000, "--secs", 8 if q else 600, timeout=3000)
    return done(c, "arbitrary edges, lengths (zero to the maximum of the clock type), stamps, poll levels and failing pins "
                   "through every front end, decoder and clock type, built with overflow checks; sender at arbitrary counters; "
                   "distinct by inputs; a call that does not return within 120 s counts as a hang",
                ["totality of the specification itself is model checked (MCDecoder)"])


# ------------------------------------------------------------------ C20
def mc_decoder(c, protos, ev=None):
    def one(p):
        n = ev or (14 if c.quick else 18)
        c.mc("MCDecoder", "SPECIFICATION Spec\nCONSTANTS\n  PROTOS = {\"%s\"}\n  FREQS = {20000}\n  MAXEV = %d\n"
             "  Geo <- SmallGeo\n  AppleValid <- SmallApple\n  Fields <- SmallFields\n"
             "INVARIANTS TypeOK OnlyDone InDone LikeNew\nPROPERTY Sticky\nCHECK_DEADLOCK FALSE\n" % (p, n),
             "MCDecoder_" + p, 2, 3000)
    return [lambda p=p: one(p) for p in protos]


def c20(c):
    q = c.quick
    fr = freqs(c, 4 if q else 20)
    r = Job()

    def gen():
        cfg = ("SPECIFICATION DSpec\nCONSTANTS\n  PROTOS = %s\n  FREQS = %s\n  MAXOPS = 4\n  KINDS = %s\n"
               % (tset(ALL), tset(GF), tset(KINDS))) + SIM
        lines = []
        for x in c.simulate("GenDec", cfg, 40 if q else 1200, 4000, 5):
            d = json.loads(x)
            lines.append("%s %d %s" % (d["p"], d["f"], " ".join(
                "%d:%d:%d:%d:%s" % (e[0] % 2, e[1], e[0], e[2], show(e[3])) for e in d["ev"])))
        return write(c, "dec.txt", lines)
    parallel(lambda: c.build("front"), r("t", lambda: export_tables(c, fr)), r("g", gen),
             *mc_decoder(c, ["nec", "apple", "sbp", "denon", "rc5", "rc6"]))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("front", "dec", *a, "--cases", r["g"])
    c.run("front", "dec", *a, "--n", 400_000 if q else 40_000_000, "--secs", 12 if q else 1500, timeout=3000)
    recs = c.run("front", "dec", *a, "--record", 120 if q else 2500)
    if not c.viols:
        validate(c, recs, "dec", "TraceDec", "TraceDec")
    return done(c, "events, resets and questions to decoders in any order, from transmissions whole and broken and noise; "
                   "distinct by operations and lengths; every step is also compared with a decoder made anew at the last reset")


# ------------------------------------------------------------------ C23
def c23(c):
    q = c.quick
    fr = freqs(c, 4 if q else 20)
    r = Job()

    def poll_mc():
        c.mc("MCPoll", "SPECIFICATION Spec\nCONSTANTS\n  CM = 16\n  MAXSINCE = 15\n  MAXFAIL = %d\nINVARIANT PollRight\n"
             "CHECK_DEADLOCK FALSE\n" % (4 if q else 40), "MCPoll", 2)
    parallel(lambda: c.build("front", "multi"), r("t", lambda: export_tables(c, fr)), poll_mc,
             r("g", lambda: gen_link(c, ALL, GF, ["clean", "corrupt", "abort", "repeat"], 2, 40 if q else 600, 4)),
             r("m", lambda: gen_multi(c, 20 if q else 500, 2, 3)))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("front", "pin", *a, "--cases", r["g"])
    c.run("front", "pin", *a, "--n", 60_000 if q else 6_000_000, "--secs", 10 if q else 900, timeout=3000)
    c.run("multi", "run", *a, "--cases", r["m"], "--faults", 1)
    c.run("multi", "run", *a, "--n", 60_000 if q else 6_000_000, "--secs", 6 if q else 600, "--faults", 1, timeout=3000)
    recs = c.run("front", "pin", *a, "--record", 120 if q else 2000)
    if not c.viols:
        front(c, recs, "pin")
    if not c.viols:
        custom(c, "dur", "plain", "poll", "multi")
    return done(c, "edge sequences with failing reads inserted (TLC cases: a failing read at every position, alone and in "
                   "bursts), for event, event_instant, poll and multi receivers with a pin; distinct by calls")


CHECKS = {
    "C10": (c10, "model_checking"),
    "C11": (c11, "model_checking"),
    "C12": (c12, "model_checking"),
    "C15": (c15, "model_checking"),
    "C19": (c19, "model_checking"),
    "C20": (c20, "model_checking"),
    "C23": (c23, "model_checking"),
}
