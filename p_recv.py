"""Receiver properties judged edge by edge: C02-C09, C24."""
import json
import os
import random
from vlib import ToolError, parallel

HZ = [10_000, 20_000, 38_000, 44_100, 1_000_000, 3_579_545, 48_000_000]
ALL = ["nec", "nec16", "samsung", "apple", "raw", "sbp", "denon", "rc5", "rc6"]
NEC = ["nec", "nec16", "samsung", "apple", "raw"]
ERRS = {"Address": 0, "Data": 1, "Validation": 2, "Remote": 3, "Pin": 4}


def tset(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


def freqs(c, extra=4):
    r = random.Random(c.seed)
    out = HZ + [40_000, 100_000_000]
    for _ in range(extra):
        e = r.uniform(4, 8)
        out.append(int(10 ** e))
    return sorted(set(out))


def show(x):
    """JSON outcome -> harness notation"""
    if not x:
        return "-"
    if x[0] == "e":
        return "e%d" % ERRS[x[1]]
    return "c" + ".".join(str(v) for v in x[1])


def export_tables(c, fr, protos=ALL):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n  PROTOS = %s\n  FREQS = %s\nCHECK_DEADLOCK FALSE\n" % (
        tset(protos), tset(fr))
    ok, out = c.tlc("IrTable", cfg, workers=1)
    seen, lines = set(), []
    for line in out.splitlines():
        if line[:1] == '"' and line[1:3] in ("W ", "L ", "X ", "P ", "S ", "T "):
            s = line[1:-1]
            if s not in seen:
                seen.add(s)
                lines.append(s)
    path = os.path.join(c.work, "tables.txt")
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    c.stats["spec_table_lines"] = len(lines)
    return path


def mc_link(c, protos, kinds, maxops=2, fs=(20000,), invs=None, workers=2, timeout=600):
    invs = invs or "DecTypeOK NeverStuck Delivered NoPhantom RepeatFaithful ErrorsRight"

    def one(p, f):
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  PROTOS = {\"%s\"}\n  FREQS = {%d}\n  MAXOPS = %d\n"
               "  KINDS = %s\n  Record = FALSE\n  Geo <- SmallGeo\n  AppleValid <- SmallApple\n"
               "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n") % (p, f, maxops, tset(kinds), invs)
        c.mc("MCLink", cfg, "MCLink_%s_%d_%d_%d" % (p, f, maxops, len(kinds)), workers, timeout)
    return [lambda p=p, f=f: one(p, f) for p in protos for f in fs]


def gen_link(c, protos, fs, kinds, maxops, n, procs, tag="t"):
    cfg = ("SPECIFICATION GSpec\nCONSTANTS\n  PROTOS = %s\n  FREQS = %s\n  MAXOPS = %d\n  KINDS = %s\n"
           "  Record = TRUE\n  Tag = \"%s\"\n  BitChoices <- SimBits\n  Thin <- One1\n"
           "  GoodPick <- SimGood\n  SpliceBits <- SimBits\n  JoinLens <- SimJoin\n  NoiseChoices <- SimNoise\n"
           "INVARIANTS DecTypeOK NeverStuck Delivered NoPhantom RepeatFaithful ErrorsRight\n"
           "CHECK_DEADLOCK FALSE\n") % (tset(protos), tset(fs), maxops, tset(kinds), tag)
    cases = c.simulate("GenLink", cfg, n, 3000, procs)
    lines = []
    for x in cases:
        d = json.loads(x)
        lines.append("%s %d %s" % (d["p"], d["f"],
                     " ".join("%d:%d:%s" % (e[0], e[1], show(e[2])) for e in d["ev"])))
    if not lines:
        raise ToolError("no behaviours generated")
    path = os.path.join(c.work, "cases.txt")
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    c.sample("TLC behaviour: " + lines[0])
    return path


def validate(c, recs, mode, name="TraceRecv", module="TraceRecv", extra="", procs=4):
    """TLC judges recorded runs (split over several processes)."""
    recs = [r for r in recs if r.startswith("REC ")]
    if not recs:
        return
    parts = [recs[k::procs] for k in range(procs) if recs[k::procs]]

    def one(k):
        path = os.path.join(c.work, "%s_%d.ndjson" % (name, k))
        with open(path, "w") as fh:
            fh.write("\n".join(r[4:] for r in parts[k]) + "\n")
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Mode = \"%s\"\n  File = \"%s\"\n%s"
               "INVARIANT Accepted\nCHECK_DEADLOCK FALSE\n") % (mode, path, extra)
        ok, out = c.tlc(module, cfg, "%s_%d" % (name, k), 2)
        if not ok:
            i = int(out.rsplit("/\\ i = ", 1)[1].split()[0])
            lno = int(out.rsplit("/\\ l = ", 1)[1].split()[0])
            run = json.loads(parts[k][i - 1][4:])
            c.viol("run of the code rejected by TLC at event %d (%s): %s" % (
                lno, json.dumps(run["ev"][lno - 1]), json.dumps(
                    {**run, "ev": run["ev"][:lno]})), "TLC " + module)
            return
        want = sum(len(json.loads(r[4:])["ev"]) + 1 for r in parts[k])
        got = int(out.rsplit(" distinct states found", 1)[0].rsplit(" ", 1)[1])
        if want != got:
            raise ToolError("trace validation consumed %d of %d steps" % (got, want))
        with c.lock:
            c.traces += len(parts[k])
            c.stats["tlc_validated_events"] = c.stats.get("tlc_validated_events", 0) + want - len(parts[k])
    parallel(*[lambda k=k: one(k) for k in range(len(parts))])


ASSUME = [
    "durations above 5*10^8 ticks are equivalent to 5*10^8 in TLC (beyond every window)",
    "the Rust table interpreter equals IrDecoders.tla (checked on every TLC behaviour of the run)",
    "receivers are deterministic; edges alternate unless stated",
]


def lives(c, what, *a):
    """Long lives of one receiver: more than 2^16 complete frames in a row, with some others in between."""
    c.run("mon", what, *a, "--ops", "clean,clean,clean,clean,clean,clean,corrupt,repeat,run", "--life", 100_000, "--n", 9 if c.quick else 45,
          timeout=3000)
    # one thing over and over, more than 2^16 times
    c.run("mon", what, *a, "--ops", "run", "--maxops", 1, "--long", 70_000, "--n", 3_000 if c.quick else 100_000,
          "--secs", 5 if c.quick else 300, timeout=3000)


def receiver_check(c, protos, mode, kinds, ops, mcp, n=400_000, nrec=160, maxops=4, mc_kinds=None, splice=False):
    fr = freqs(c, 4 if c.quick else 24)
    gf = HZ + [40_000, 100_000_000]
    mck = mc_kinds or ["clean", "corrupt", "abort", "repeat"]
    sims = 60 if c.quick else 1500
    jobs = mc_link(c, mcp, mck)
    if splice:
        jobs += mc_link(c, mcp, ["clean", "splice"])
    if not c.quick:
        jobs += mc_link(c, mcp, mck, 2, (10_000, 38_000, 1_000_000), timeout=3000)
        jobs += mc_link(c, mcp, mck, 3, (20_000,), timeout=3000)
        jobs += mc_link(c, mcp, mck + ["noise"], 2, (40_000,), timeout=3000)
    res = {}

    def tab():
        res["t"] = export_tables(c, fr)

    def gen():
        res["g"] = gen_link(c, protos, gf, kinds, maxops, sims, 4 if c.quick else 6)
    parallel(lambda: c.build("mon"), tab, gen, *jobs)
    c.log("built, model checked and generated")
    a = ["--tables", res["t"], "--mode", mode]
    pa = ["--protos", ",".join(protos), "--ops", ",".join(ops), "--maxops", maxops, "--seed", c.seed]
    c.run("mon", "replay", *a, "--cases", res["g"])
    c.run("mon", "run", *a, *pa, "--n", n if c.quick else n * 200, "--secs", 12 if c.quick else 1200,
          timeout=3000)
    lives(c, "run", *a, "--protos", ",".join(protos), "--seed", c.seed)
    if mode == "frames":
        # every command (up to 2^17 per protocol in the quick check)
        bits = {"nec": 16, "samsung": 16, "rc5": 13, "rc6": 17, "apple": 20, "nec16": 24, "sbp": 24, "raw": 24,
                "denon": 24}
        for p in protos:
            total = 1 << min(bits[p], 17 if c.quick else 24)
            c.run("mon", "run", *a, "--protos", p, "--sweep", "1", "--n", total, "--seed", c.seed, timeout=3000)
            c.stats["contents_swept_" + p] = total
    recs = c.run("mon", "record", *a, *pa, "--n", nrec if c.quick else nrec * 20)
    if not c.viols:
        validate(c, recs, mode, procs=4)
    c.traces += c.stats.get("tlc_traces", 0)
    return c.finish({
        "evaluations": c.stats.get("cases", 0) + c.stats.get("replays", 0),
        "distinct_nontrivial": c.stats.get("distinct", 0),
        "rule": "edge sequences of up to %d transmissions (%s) of %s, distinct by edges, lengths, protocol "
                "and frequency; every one contains at least one transmission" % (maxops, ",".join(ops), ",".join(protos)),
    }, ASSUME)


MIX = ["clean", "corrupt", "abort", "repeat"]
OPS = ["clean", "clean", "corrupt", "abort", "repeat"]


def frames(protos, mcp):
    return lambda c: receiver_check(c, protos, "frames", MIX, ["clean", "clean", "clean", "corrupt", "abort", "repeat", "noise", "run", "walk"], mcp)


def c07(c):
    return receiver_check(c, ALL, "phantom", MIX + ["splice", "noise"],
                          ["clean", "corrupt", "corrupt", "corrupt", "abort", "abort", "repeat", "splice", "splice", "splice", "noise", "noise", "run", "run", "walk", "walk", "walk"],
                          ["nec", "apple", "sbp", "denon", "rc5", "rc6"], n=500_000, splice=True)


def c08(c):
    fr = freqs(c, 4 if c.quick else 24)
    kinds = MIX + ["splice", "noise"]
    mcp = ["nec", "samsung", "apple", "sbp", "denon", "rc5", "rc6"]
    inv = "DecTypeOK NeverStuck Delivered"
    jobs = mc_link(c, mcp, kinds, 2, (20_000,), inv) if not c.quick else (
        mc_link(c, mcp, ["clean", "corrupt", "abort", "noise"], 2, (20_000,), inv) + mc_link(c, mcp, ["clean", "splice"], 2, (20_000,), inv))
    if not c.quick:
        jobs += mc_link(c, mcp, MIX, 3, (20_000,), inv, timeout=3000)
    res = {}

    def tab():
        res["t"] = export_tables(c, fr)

    def gen():
        res["g"] = gen_link(c, ALL, HZ + [40_000, 100_000_000], kinds, 5, 60 if c.quick else 1500, 4)
    parallel(lambda: c.build("mon"), tab, gen, *jobs)
    c.log("built, model checked and generated")
    a = ["--tables", res["t"], "--protos", ",".join(ALL), "--seed", c.seed]
    c.run("mon", "resync", *a, "--cases", res["g"])
    c.run("mon", "resync", *a, "--n", 400_000 if c.quick else 40_000_000, "--secs", 12 if c.quick else 1200, timeout=3000)
    lives(c, "resync", *a)
    recs = c.run("mon", "resync", *a, "--record", 1, "--n", 160 if c.quick else 3000)
    if not c.viols:
        validate(c, recs, "resync")
    c.traces += c.stats.get("replays", 0)
    return c.finish({
        "evaluations": c.stats.get("cases", 0), "distinct_nontrivial": c.stats.get("distinct", 0),
        "rule": "histories (frames, broken and cut frames, repeat codes, noise, missed edges) followed by a gap and "
                "a frame; distinct by edges and lengths; compared with a fresh receiver on the final edge of "
                "every complete frame after a gap",
    }, ASSUME)


def c09(c):
    return receiver_check(c, NEC, "repeat", ["clean", "corrupt", "abort", "repeat"],
                          ["clean", "clean", "corrupt", "abort", "repeat", "repeat", "repeat", "splice", "noise", "run", "walk"],
                          ["nec", "samsung", "apple"], maxops=7)


def c24(c):
    return receiver_check(c, ALL, "errors", MIX + ["splice", "noise"],
                          ["clean", "corrupt", "corrupt", "abort", "repeat", "splice", "noise", "run", "walk"],
                          ["nec", "samsung", "apple", "sbp", "denon", "rc5", "rc6"])


CHECKS = {
    "C02": (frames(NEC, ["nec", "samsung", "apple"]), "model_checking"),
    "C03": (frames(["rc5"], ["rc5"]), "model_checking"),
    "C04": (frames(["rc6"], ["rc6"]), "model_checking"),
    "C05": (frames(["sbp"], ["sbp"]), "model_checking"),
    "C06": (frames(["denon"], ["denon"]), "model_checking"),
    "C07": (c07, "model_checking"),
    "C08": (c08, "model_checking"),
    "C09": (c09, "model_checking"),
    "C24": (c24, "model_checking"),
}
