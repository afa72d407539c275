"""C25: recorded signals (value change dumps) read by the program in the repository."""
import json
import os
import random
import re
import shutil
import subprocess
import concurrent.futures as cf
from vlib import HARNESS, REPO, ToolError, parallel
from p_recv import ASSUME, tset
from p_front import SIM, Job, done

UNITS = {1_000_000: ("us", 1), 100_000: ("us", 10), 40_000: ("us", 25), 33_333: ("us", 30), 20_000: ("us", 50), 10_000: ("us", 100)}
WIRES = ["ir", "ir", "ir", "data"]
SAMPLE = os.path.join(REPO, "examples", "vcd-parser", "samsung-tv.vcd")


def build():
    tgt = os.path.join(HARNESS, "target", "vcd")
    fp = os.path.join(tgt, "debug", ".fingerprint")      # cargo goes by the time of files
    for e in os.listdir(fp) if os.path.isdir(fp) else ():
        if e.startswith(("infrared-", "vcd-parser-")):
            shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_TERM_COLOR="never", RUSTFLAGS="--cap-lints allow")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "-p", "vcd-parser"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("build of vcd-parser failed:\n" + p.stdout[-3000:])
    return os.path.join(tgt, "debug", "vcd-parser")


def pauses(r, hz, recs):
    """The same records with pauses made longer, past what 32 bits hold: a mark that begins after 15 ms or more
    begins after a pause, however long.  A pause whose low bits alone look like a pulse is among the choices."""
    out, add, clock, prev, at = [], 0, 0, 0, None
    for x in recs:
        if x[0] == "t":
            clock, at = x[1], len(out)
        elif x[0] == "i":
            if x[1] == "1" and clock - prev >= hz * 15 // 1000 and r.random() < .6:
                far = (1 << r.choice([32, 33, 40])) * r.choice([1, 1, 3])
                j = r.choice([0, 1000, prev - clock + hz * r.choice([9000, 6750, 2250, 1120]) // 1_000_000])
                add += far + j
                out[at] = ["t", out[at][1] + far + j]
            prev = clock
        out.append([x[0], x[1] + add if x[0] == "t" else x[1]])
    return out


def render(r, hz, recs, wire):
    """The file, with whatever else such files may contain."""
    unit, n = UNITS[hz]
    a, b = r.choice([("!", "\""), ("#", "!"), ("ab", "a"), ("0", "1"), ("!", "!!")])
    var = ["$var wire 1 %s %s $end" % (a, wire), "$var wire 1 %s other $end" % b]
    r.shuffle(var)
    out = []
    if r.random() < .4:
        out.append("$date today $end\n$version something $end\n$comment #1 1! $end")
    out += ["$timescale %d%s%s $end" % (n, r.choice([" ", ""]), unit), "$scope module top $end"] + var
    out += ["$upscope $end", "$enddefinitions $end"]
    for i, x in enumerate(recs):
        if x[0] == "t":
            out.append("#%d" % (x[1]))
        elif i == 0 and x[0] == "i":
            out.append("$dumpvars\n%s%s\n$end" % (x[1], a))
        else:
            out.append("%s%s" % (x[1], a if x[0] == "i" else b))
        if r.random() < .01:
            out.append("$comment #7 0%s $end" % a)
    return "\n".join(out) + "\n"


def read(exe, path, wire):
    """What the program prints: the resolution and the commands (address, command, repeat)."""
    try:
        p = subprocess.run([exe, path, wire], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return None, "does not end"
    if p.returncode != 0:
        return None, "ends with %d: %s" % (p.returncode, p.stderr[-300:])
    m = re.search(r"(\d+) Hz", p.stdout)
    cmds = []
    for line in p.stdout.splitlines():
        if line.startswith("Cmd:"):
            g = re.search(r"addr: (\d+), cmd: (\d+), repeat: (true|false)", line)
            cmds.append([int(g[1]), int(g[2]), 1 if g[3] == "true" else 0] if g else [line])
    return (int(m[1]) if m else 0), cmds


def sample(exe):
    """The recording in the repository, as records."""
    hdr = True
    recs, code, unit, n = [], None, None, None
    for line in open(SAMPLE):
        t = line.split()
        if not t:
            continue
        if t[0] == "$timescale":
            n, unit = int(t[1]), t[2]
        elif t[0] == "$var" and t[4] == "ir":
            code = t[3]
        elif t[0][0] == "#":
            recs.append(["t", int(t[0][1:])])
        elif t[0][0] in "01xz" and t[0][1:] == code:
            recs.append(["i", t[0][0]])
    hz, cmds = read(exe, SAMPLE, "ir")
    return {"unit": unit, "n": n, "recs": recs, "hz": hz, "cmds": cmds}


def c25(c):
    q = c.quick
    r = Job()

    def gen():
        cfg = ("SPECIFICATION CSpec\nCONSTANTS\n  PROTOS = {\"samsung\"}\n  FREQS = %s\n  MAXOPS = 4\n"
               "  KINDS = {\"clean\", \"corrupt\", \"abort\", \"repeat\"}\n" % tset(sorted(UNITS))) + SIM.replace(
                   "CHECK_DEADLOCK", "INVARIANT SameAsHeard\nCHECK_DEADLOCK")
        return [json.loads(x) for x in c.simulate("GenCapture", cfg, 40 if q else 700, 3000, 6)]

    def mc():
        c.mc("MCCapture", "SPECIFICATION Spec\nCONSTANTS\n  MAXT = %d\n  MAXREC = %d\nINVARIANTS AsItHappened NeverAhead\n"
             "CHECK_DEADLOCK FALSE\n" % ((4, 7) if q else (7, 9)), "MCCapture", 2)
    parallel(r("exe", build), r("g", gen), mc)
    exe, cases = r["exe"], r["g"]
    if len(cases) < 50 or not any(x["out"] for x in cases):
        raise ToolError("too few files generated")
    c.log("built, model checked and generated: %d files" % len(cases))
    rnd = random.Random(c.seed)
    jobs = []
    for k, x in enumerate(cases):
        for far in range(3):
            wire = rnd.choice(WIRES)
            path = os.path.join(c.work, "s%d_%d.vcd" % (k, far))
            with open(path, "w") as fh:
                fh.write(render(rnd, x["f"], pauses(rnd, x["f"], x["recs"]) if far else x["recs"], wire))
            jobs.append((x, path, wire, far))

    def one(j):
        x, path, wire, far = j
        return j, read(exe, path, wire)
    recs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for (x, path, wire, far), (hz, cmds) in ex.map(one, jobs):
            c.add("cases", 1)
            want = [o[1] for o in x["out"] if o[0] == "c"]
            if hz is None:
                c.viol("the program %s on %s" % (cmds, open(path).read()), "vcd-parser")
                continue
            if hz != x["f"] or cmds != want:
                c.viol("%s Hz, commands %s instead of %s Hz, %s: %s" % (hz, cmds, x["f"], want, open(path).read()), "vcd-parser")
            unit, n = UNITS[x["f"]]
            if not far and len(recs) < (24 if q else 300):
                recs.append({"unit": unit, "n": n, "recs": x["recs"], "hz": hz, "cmds": cmds})
            c.add("commands", len(want))
    c.stats["distinct"] = len(set(json.dumps(x["recs"]) for x in cases))
    c.sample("TLC behaviour: " + json.dumps(cases[0]))
    s = sample(exe)
    if s["hz"] is None:
        c.viol("the program %s on samsung-tv.vcd" % s["cmds"], "vcd-parser")
    elif not c.viols:
        recs.append(s)
    if not c.viols:
        judge(c, recs)
    return done(c, "files of behaviours of the specification (whole and broken frames, repeats) at six time scales, with stamps "
                   "that say nothing new, other signals, undefined values and late starts; distinct by records",
                ["time scales of nanoseconds and seconds, which the program refuses, are not generated"])


def judge(c, recs):
    path = os.path.join(c.work, "capture.ndjson")
    with open(path, "w") as fh:
        for x in recs:
            fh.write(json.dumps(x) + "\n")
    ok, out = c.tlc("TraceCapture", "SPECIFICATION Spec\nCONSTANTS\n  File = \"%s\"\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n" % path,
                    workers=1)
    if not ok:
        i = int(out.rsplit("/\\ i = ", 1)[1].split()[0])
        c.viol("what the program printed about a file is rejected by TLC: " + json.dumps(recs[i - 1]), "TLC TraceCapture")
        return
    got = int(out.rsplit(" distinct states found", 1)[0].rsplit(" ", 1)[1])
    if got != 1 + sum(len(x["recs"]) + 1 for x in recs):
        raise ToolError("trace validation consumed %d states" % got)
    c.traces += len(recs)


CHECKS = {"C25": (c25, "model_checking")}
