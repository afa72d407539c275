"""C21 feature combinations, C22 builder."""
import json
import os
import queue
import re
import shutil
import subprocess
from vlib import HARNESS, VERIF, ToolError, parallel
from p_recv import ALL, export_tables, gen_link
from p_front import KINDS, Job, done, front

NAMED = {"nec": "nec", "nec16": "nec16", "samsung": "nec_samsung", "apple": "nec_apple", "rc5": "rc5", "rc6": "rc6",
         "sbp": "samsung_bluray", "denon": "denon"}
TYPE = {"nec": "pr::Nec", "nec16": "pr::Nec16", "samsung": "pr::SamsungNec", "apple": "pr::AppleNec", "raw": "pr::NecDebug",
        "rc5": "pr::Rc5", "rc6": "pr::Rc6", "sbp": "pr::Sbp", "denon": "pr::Denon"}
REMOTE = {"Apple2009": "rnec::Apple2009", "SpecialForMp3": "rnec::SpecialForMp3", "SamsungTv": "rnec::SamsungTv",
          "CdPlayer": "rrc5::CdPlayer", "SamsungBluRayPlayer": "rsbp::SamsungBluRayPlayer"}
MONO = {"u32": "u32", "u64": "u64", "f32": "F32", "f64": "F64"}


def chain(calls, k):
    s = "infrared::receiver()" if k % 2 else "Builder::default()"
    for j, (kind, v) in enumerate(calls):
        if kind == "proto":
            s += ".%s()" % NAMED[v] if v in NAMED and (k + j) % 3 else ".protocol::<%s>()" % TYPE[v]
        elif kind == "freq":
            s += ".frequency(%s)" % v
        elif kind == "pin":
            s += ".pin(%s.clone())" % v.lower()
        elif kind == "mono":
            s += ".monotonic::<%s>()" % MONO[v]
        else:
            s += ".remotecontrol(%s)" % REMOTE[v]
    return s


def direct(s, k):
    p, m, f = TYPE[s["proto"]], MONO[s["mono"]], s["freq"]
    out = "<%s as Protocol>::Cmd" % p if s["out"] == "plain" else "Button<%s>" % REMOTE[s["out"]]
    pin, arg = ("NoPin", "NoPin") if s["pin"] == "none" else ("Pin", s["pin"].lower())
    ty = "Receiver::<%s, %s, %s, %s>" % (p, pin, m, out)
    if k % 2 == 0:
        ev = ty + "::with_input(%s, %s)" % (f, arg)
    elif pin == "NoPin":
        ev = ty + "::new(%s)" % f
    elif f == "1000000" and m[0] == "F":
        ev = ty + ("::with_fugit(%s)" if m == "F32" else "::with_fugit64(%s)") % arg
    else:
        ev = ty + "::with_pin(%s, %s)" % (f, arg)
    ty = "PeriodicPoll::<%s, %s, %s>" % (p, pin, out)
    po = (ty + "::with_input(%s, %s)" % (f, arg) if k % 2 == 0 else
          ty + "::new(%s)" % f if pin == "NoPin" else ty + "::with_pin(%s, %s)" % (f, arg))
    return ev, po


def builder_cases(c, rounds, rand, long):
    ok, out = c.tlc("GenBuilder", "SPECIFICATION Spec\nCONSTANTS\n  ROUNDS = %d\n  RANDOM = %d\n  LONG = %d\nCHECK_DEADLOCK FALSE\n"
                    % (rounds, rand, long), workers=1)
    lines = c.prints(out, "CASE ")
    if not lines:
        raise ToolError("no builder cases")
    body = []
    for k, x in enumerate(lines):
        d = json.loads(x[5:])
        ev, po = direct(d["s"], k)
        ch = chain(d["calls"], k)
        body.append("Case { calls: %s, settings: %s, p: \"%s\", f: %s,\n built: |a, b| { let _ = (&a, &b); bx(%s.build()) },\n"
                    " direct: |a, b| { let _ = (&a, &b); bx(%s) },\n built_poll: |a, b| { let _ = (&a, &b); bp(%s.build_polled()) },\n"
                    " direct_poll: |a, b| { let _ = (&a, &b); bp(%s) } }," % (
                        json.dumps(json.dumps(d["calls"])), json.dumps(json.dumps(d["s"])), d["s"]["proto"], d["s"]["freq"],
                        ch, ev, ch, po))
    os.makedirs(os.path.join(HARNESS, "generated"), exist_ok=True)
    with open(os.path.join(HARNESS, "generated", "cases.rs"), "w") as fh:
        fh.write("fn cases() -> Vec<Case> {\n vec![\n%s\n]\n}\n" % "\n".join(body))
    c.sample("TLC behaviour: " + lines[-1])
    c.add("builder_cases", len(lines))


def c22(c):
    q = c.quick
    r = Job()
    fr = [10_000, 20_000, 38_000, 44_100, 1_000_000, 3_579_545, 48_000_000, 168_000_000, 1_000_000_000]

    def build():
        builder_cases(c, 1 if q else 6, 150 if q else 2500, 10 if q else 16)
        try:
            c.build("builder")
        except ToolError as e:
            bad = re.search(r"^error[^\n]*\n *--> \S*generated/cases.rs:(\d+):[^\n]*\n(?:[^\n]*\n){1,3}", str(e), re.M)
            if not bad:
                raise
            c.viol("a list of builder calls that makes a receiver does not compile: " + bad.group(0), "cargo build")
            raise ToolError("stop")
    parallel(build, r("t", lambda: export_tables(c, fr)),
             lambda: c.mc("MCBuilder", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS LastCounts OrderIrrelevant\nCHECK_DEADLOCK FALSE\n"
                          % (5 if q else 7), "MCBuilder", 4, 3000))
    c.log("built, model checked and generated")
    a = ["--tables", r["t"], "--seed", c.seed]
    c.run("builder", *a, "--n", 12 if q else 60, "--secs", 15 if q else 900, timeout=3000)
    recs = c.run("builder", *a, "--record", 200 if q else 3000)
    if not c.viols:
        front(c, recs, "builder", 2, module="TraceBuilder")
    return done(c, "lists of builder calls enumerated and drawn by TLC (every order of every subset of the kinds of calls, longer lists "
                   "with repeated kinds), each compiled, and the built event and poll receivers run beside directly constructed ones; "
                   "distinct by calls and edges", ["pins that the harness can script"])


# ------------------------------------------------------------------ C21
PROBE = os.path.join(VERIF, "probe")
DECODERS = ["nec", "rc5", "rc6", "sbp", "denon"]
# parts that add ways to receive to those of base
MORE = {"hal": "run_hal", "fugit": "run_fugit", "hal_fugit": "run_hal_fugit", "embedded": "run_embedded"}
MULTI = {"hal": "multi_hal"}
ROWS = ["remotes_nec", "remotes_rc5", "remotes_sbp"]
MACRO = """#![allow(unused)]
macro_rules! rows {
    ($P:ty, any, $f:expr, $ev:expr, $v:expr) => {{
        let mut r = rows!($P, own, $f, $ev, $v);
        r.extend(run_multi::<$P>($f, $ev, $v));
%s        r
    }};
    ($P:ty, own, $f:expr, $ev:expr, $v:expr) => {{
        let mut r = run::<$P>($f, $ev, $v);
%s        r
    }};
}
"""
MAIN = """
fn go(p: &str, f: u32, ev: &[Edge]) -> Option<Vec<Row>> {
    let r = None;
%s    let mut r = r?;
%s    Some(r)
}
fn main() {
%s    let mut n = 0;
    for l in std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap().lines() {
        let t: Vec<&str> = l.split(' ').collect();
        let x: Vec<Vec<&str>> = t[2..].iter().map(|y| y.splitn(3, ':').collect()).collect();
        let ev: Vec<Edge> = x.iter().map(|y| (y[0] == "1", y[1].parse().unwrap())).collect();
        let want: Vec<String> = x.iter().map(|y| {
            let mut s = y[2].to_string();
            while s.starts_with('c') && s.ends_with(".0") { s.truncate(s.len() - 2) }
            s
        }).collect();
        let cmds: Vec<String> = want.iter().filter(|x| x.starts_with('c')).cloned().collect();
        let Some(got) = go(t[0], t[1].parse().unwrap(), &ev) else { continue };
        for (way, only, g) in &got {
            let want = if *only { &cmds } else { &want };
            if g != want {
                let i = (0..g.len().min(want.len())).find(|i| g[*i] != want[*i]).unwrap_or(0);
                println!("VIOL {} {} Hz, {way}: number {i}: {:?} instead of {:?}; {l}", t[0], t[1], g.get(i), want.get(i));
            }
            n += 1;
        }
    }
    println!("STAT runs {n}");
}
"""


def probe_main(parts):
    more = lambda m: "".join("        r.extend(%s::<$P>($f, $ev, $v));\n" % m[x] for x in m if x in parts)
    out = MACRO % (more(MULTI), more(MORE))
    for x in parts:
        out += open(os.path.join(PROBE, "parts", x + ".rs")).read()
    calls = "".join("    let r = r.or_else(|| go_%s(p, f, ev));\n" % x for x in DECODERS if x in parts)
    rows = "".join("    r.extend(rows_%s(p, f, ev));\n" % x for x in ROWS if x in parts)
    return out + MAIN % (calls or "    let r: Option<Vec<Row>> = r;\n", rows, "".join("    api_%s();\n" % x for x in parts))


def cargo(d, feats, *args):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_TERM_COLOR="never", DEFMT_LOG="trace", RUSTFLAGS="--cap-lints allow")
    return subprocess.run(["cargo", *args, "--offline", "--locked", "--no-default-features", "--features", ",".join(feats)],
                          cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)


def c21(c):
    q = c.quick
    r = Job()

    def combos():
        out = c.mc("MCFeatures", "SPECIFICATION Spec\nCONSTANTS\n  All = %s\n  Small = 2\n  Share = 250\n"
                   "INVARIANTS SameInterface ProtocolsOffered Emit\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n"
                   % ("FALSE" if q else "TRUE"), "MCFeatures", 1, cover=False)
        cs = {x: json.loads(x[5:]) for x in c.prints(out, "CASE ")}
        if len(cs) < 100:
            raise ToolError("too few combinations")
        return list(cs.values())

    def warm():
        # the dependencies, once
        d = os.path.join(c.work, "w0")
        os.makedirs(os.path.join(d, "src"))
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(PROBE, f), d)
        shutil.copy(os.path.join(PROBE, "bare.rs"), os.path.join(d, "src", "lib.rs"))
        with open(os.path.join(d, "src", "main.rs"), "w") as fh:
            fh.write("fn main() {}\n")
        for k in ("build",):
            for feats in (["defmt", "embedded"], ["log", "embedded"]):
                cargo(d, feats, k)
        for k in range(1, 8):
            shutil.copytree(d, os.path.join(c.work, "w%d" % k), symlinks=True)
    parallel(r("cs", combos), warm,
             r("g", lambda: gen_link(c, ALL, [20_000, 1_000_000], KINDS, 2, 12 if q else 60, 2)))
    c.log("combinations: %d" % len(r["cs"]))
    todo = queue.Queue()
    for x in sorted(r["cs"], key=lambda x: len(x["f"])):
        todo.put(x)
    feats_seen = {}

    def worker(k):
        d = os.path.join(c.work, "w%d" % k)
        while len(c.viols) < 3:
            try:
                x = todo.get_nowait()
            except queue.Empty:
                return
            name = ",".join(sorted(x["f"])) or "(no features)"
            with open(os.path.join(d, "src", "main.rs"), "w") as fh:
                fh.write(probe_main(x["parts"]))
            p = cargo(d, x["f"], "build")
            c.add("combinations", 1)
            c.add("parts", len(x["parts"]))
            if p.returncode != 0:
                lines = p.stdout.splitlines()
                err = next((i for i, l in enumerate(lines) if l.startswith("error")), None)
                if err is None or "no matching package" in p.stdout or "failed to download" in p.stdout:
                    raise ToolError("cargo: " + p.stdout[-1500:])
                c.viol("features %s do not build with the interface they name (%s): %s" % (
                    name, " ".join(x["parts"]), " | ".join(lines[err:err + 8])), "cargo build in a probe crate")
                continue
            try:
                p = subprocess.run([os.path.join(d, "target", "debug", "probe"), r["g"]], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                c.viol("features %s: the probe does not return" % name, "probe")
                continue
            bad = [l for l in p.stdout.splitlines() if l.startswith("VIOL ")]
            if bad or p.returncode != 0:
                c.viol("features %s: %s" % (name, bad[0][5:] if bad else p.stdout[-400:]), "probe")
                continue
            c.traces += int(p.stdout.rsplit("STAT runs ", 1)[1])
            c.add("combinations_run", 1)
    parallel(*[lambda k=k: worker(k) for k in range(8)])
    c.stats["cases"] = c.stats["combinations"]
    c.stats["distinct"] = c.stats["combinations"]
    return done(c, "combinations of features (%s) enumerated by TLC with the parts of the interface they name; a probe crate using "
                   "those parts is compiled for each and run on behaviours of the specification"
                % ("at most two features, at most three lacking of all, and a random quarter of the others" if q else "all 960"),
                ["built for the host: as a program with loggers that drop what they are given, and as a library for a machine with neither std nor allocator"])


CHECKS = {"C21": (c21, "model_checking"), "C22": (c22, "model_checking")}
