"""Shared machinery of the checks: TLC, the harness build, reports."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = 8


class ToolError(Exception):
    """The check could not do its work (exit 2)."""


class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.quick = tier != "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.stats = {}
        self.samples = []
        self.viols = []
        self.notes = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.actions = {}
        self.lock = threading.Lock()
        self.deadline = None

    # ------------------------------------------------------------- reporting
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def add(self, k, v):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + v

    def viol(self, what, replay=""):
        with self.lock:
            self.viols.append((what, replay))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s if len(s) < 1500 else s[:1500] + " ...")

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, name=None, workers=4, timeout=600, simulate=None, seed=None,
            defines=None, count=True, cover=False):
        """Run TLC on spec/module.tla with the text of a config file.
        Returns (ok, output).  Raises ToolError unless TLC finished properly."""
        name = name or module
        d = os.path.join(self.work, "tlc_" + re.sub(r"\W", "_", name))
        os.makedirs(d, exist_ok=True)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx3g",
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Xss16m",
               "-cp", CP, "tlc2.TLC", "-noTE", "-metadir", os.path.join(d, "md"),
               "-config", cfgp]
        if cover:
            cmd += ["-coverage", "60"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]),
                    "-seed", str(seed if seed is not None else self.seed)]
        cmd += ["-workers", str(workers), os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out: " + name)
        out = p.stdout
        with open(os.path.join(d, "out.txt"), "w") as fh:
            fh.write(out)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m and count:
            with self.lock:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        if p.returncode == 0:
            return True, out
        if p.returncode in (12, 13) and "is violated" in out:
            return False, out
        raise ToolError("TLC failed on %s (exit %d): %s" % (name, p.returncode, tail_err(out)))

    def mc(self, module, cfg, name=None, workers=4, timeout=600, cover=True):
        """Model check the specification itself: a violation here is a bug of
        the specification, not of the code."""
        ok, out = self.tlc(module, cfg, name, workers, timeout, cover=cover)
        if not ok:
            raise ToolError("the specification violates its own invariant (%s):\n%s"
                            % (name, "\n".join(out.splitlines()[-60:])))
        for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)",
                             out, re.M):
            k = m.group(1)
            with self.lock:
                self.actions[k] = max(self.actions.get(k, 0), int(m.group(4)))
        return out

    def prints(self, out, prefix):
        """Strings that the specification printed with PrintT."""
        r = []
        for line in out.splitlines():
            if line.startswith('"' + prefix):
                r.append(json.loads(line) if "\\" in line else line[1:-1])
        return r

    def simulate(self, module, cfg, n, depth, procs=8, prefix="CASE ", timeout=600, name=None):
        """Behaviours of the specification from parallel TLC simulations."""
        def one(k):
            ok, out = self.tlc(module, cfg, "%s_sim%d" % (name or module, k), 1, timeout,
                               simulate=(n, depth), seed=self.seed * 1000 + k, count=False)
            if not ok:
                raise ToolError("simulation violates an invariant of the specification")
            return [x[len(prefix):] for x in self.prints(out, prefix)]
        with cf.ThreadPoolExecutor(procs) as ex:
            res = []
            for r in ex.map(one, range(procs)):
                res += r
        return res

    # --------------------------------------------------------------- harness
    def try_build(self, *bins):
        """False if the harness cannot be compiled against this tree."""
        try:
            self.build(*bins, clean=False)
            return True
        except ToolError as e:
            self.log("does not compile against this tree, not judged: %s\n%s" % (", ".join(bins), str(e)[-600:]))
            return False

    def build(self, *bins, clean=True):
        """Build the harness against /repo's working tree."""
        tgt = os.path.join(HARNESS, "target")
        fp = os.path.join(tgt, "release", ".fingerprint")
        if clean and os.path.isdir(fp):
            for e in os.listdir(fp):
                if e.startswith(("infrared-", "harness-")):
                    shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
        cmd = ["cargo", "build", "--release", "--offline", "--locked"]
        for b in bins:
            cmd += ["--bin", b]
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_TERM_COLOR="never", RUSTFLAGS="--cap-lints allow")
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-20000:])

    def run(self, bin, *args, timeout=600, stdin=None, keep=None):
        """Run a harness binary; collects STAT, SAMPLE and VIOL lines."""
        exe = os.path.join(HARNESS, "target", "release", bin)
        cmd = [exe] + [str(a) for a in args]
        try:
            p = subprocess.run(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, text=True, errors="replace", input=stdin)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out: " + " ".join(cmd))
        rest = []
        for line in p.stdout.splitlines():
            if line.startswith("VIOL "):
                self.viol(line[5:], " ".join(cmd))
            elif line.startswith("STAT "):
                _, k, v = line.split(" ")
                if k.endswith(("_total", "_covered", "_states")):
                    self.stats[k] = max(self.stats.get(k, 0), int(v))
                else:
                    self.add(k, int(v))
            elif line.startswith("SAMPLE "):
                self.sample(line[7:])
            elif line.startswith("TOOLERR"):
                raise ToolError(line)
            else:
                rest.append(line)
        if p.returncode != 0:
            # abort (stack overflow, double panic, ...) of the code under test
            if p.returncode < 0 and p.returncode != -9:
                self.viol("harness process ended by signal %d: %s" % (-p.returncode, p.stderr[-300:]),
                          " ".join(cmd))
            else:
                raise ToolError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stderr[-2000:]))
        return rest

    # ------------------------------------------------------------------- end
    def finish(self, coverage, assumptions=()):
        cov = dict(coverage)
        if self.level == "model_checking":
            cov.setdefault("states", self.states)
            cov.setdefault("transitions", self.transitions)
            cov.setdefault("traces_validated_against_impl", self.traces)
        cov["samples"] = self.samples or ["(none)"]
        cov["spec_actions"] = self.actions
        for k, v in self.stats.items():
            cov.setdefault(k, v)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viols)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        if not self.viols:
            self.log("held; %s" % json.dumps({k: cov[k] for k in cov if isinstance(cov[k], int)}))
            return 0
        rd = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(rd, exist_ok=True)
        for what, how in self.viols[:5]:
            h = hashlib.sha1(what.encode()).hexdigest()[:10]
            path = os.path.join(rd, h + ".txt")
            with open(path, "w") as fh:
                fh.write("property %s\nviolation: %s\nfound by: %s\n" % (self.pid, what, how))
            print(what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        return 1


def tail_err(out):
    i = out.find("Error:")
    return out[i:i + 1500] if i >= 0 else out[-1500:]


def parallel(*fs):
    """Run thunks in parallel; re-raise the first exception."""
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check.py <property> [--thorough]", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    fn, level = table[pid]
    c = Check(pid, tier, level)
    try:
        return fn(c)
    except ToolError as e:
        if c.viols:
            # the code under test already misbehaved: that is the outcome
            return c.finish({"evaluations": sum(c.stats.values()) or 1})
        print("TOOL ERROR: %s" % e, file=sys.stderr, flush=True)
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
