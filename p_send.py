"""Sending: C01 round trip, C13 sender, C14 encoded waveforms."""
import json
from vlib import parallel
from p_recv import tset
from p_front import Job, done, front, write

SENDABLE = ["nec", "nec16", "samsung", "raw", "rc5", "rc6"]
# the sampling frequencies that bin tx is built for and TLC's integers can hold
FS = [10_000, 10_007, 12_345, 16_000, 20_000, 36_000, 38_000, 40_000, 44_100, 48_000, 56_000, 99_991, 100_000,
      250_000, 333_333, 500_000, 1_000_000, 1_000_003, 3_579_545, 8_000_000, 14_318_181, 48_000_000]


def gen_round(c, n, procs, cmds=3):
    """Behaviours of encoder - air - receiver: commands with the train each has to give."""
    cfg = ("SPECIFICATION GSpec\nCONSTANTS\n  PROTOS = %s\n  FREQS = %s\n  MAXCMDS = %d\n  Keeping <- Yes\n  Pick <- One\n"
           "  Contents <- SimContents\nINVARIANTS RoundTrip NotEarly\nCHECK_DEADLOCK FALSE\n"
           % (tset(SENDABLE), tset(FS), cmds))
    lines = []
    for x in c.simulate("GenRound", cfg, n, 600, procs):
        d = json.loads(x)
        lines.append("%s %d %s" % (d["p"], d["f"], " ".join(
            ".".join(map(str, v)) + ":" + ",".join(map(str, us)) for v, us in d["cmds"])))
    return write(c, "round.txt", lines)


def mc_rates(c, lo, hi, st, name, workers=2):
    c.mc("MCRates", "SPECIFICATION Spec\nCONSTANTS\n  FLO = %d\n  FHI = %d\n  STEP = %d\nINVARIANT RatesOK\n"
         "CHECK_DEADLOCK FALSE\n" % (lo, hi, st), name, workers, 2000)


def mc_round(c, p, fs, cmds):
    c.mc("MCRound", "SPECIFICATION Spec\nCONSTANTS\n  PROTOS = {\"%s\"}\n  FREQS = %s\n  MAXCMDS = %d\n  Geo <- SmallGeo\n"
         "  Pairs <- NoPairs\nINVARIANTS RoundTrip NotEarly\nCHECK_DEADLOCK FALSE\n" % (p, tset(fs), cmds),
         "MCRound_" + p, 2, 3000)


def rates(c):
    q = c.quick
    return [lambda: mc_rates(c, 10_000, 40_000 if q else 200_000, 1, "MCRates_lo"),
            lambda: mc_rates(c, 40_000, 48_000_000, 19_997 if q else 499, "MCRates_hi")]


# ------------------------------------------------------------------ C01
def c01(c):
    q = c.quick
    r = Job()
    parallel(lambda: c.build("tx"), r("g", lambda: gen_round(c, 150 if q else 5000, 4)), *rates(c),
             *[lambda p=p: mc_round(c, p, [10_000, 20_000, 38_000] if q else [10_000, 12_345, 20_000, 38_000, 44_100, 1_000_000],
                                    2 if q else 3)
               for p in ("nec", "samsung", "rc5", "rc6")])
    c.log("built, model checked and generated")
    s = ["--seed", c.seed]
    c.run("tx", "round", *s, "--cases", r["g"])
    # every command of NEC, Samsung, RC5 and RC6 at every frequency; Nec16 and raw: a part
    c.run("tx", "round", *s, "--sweep", 1, "--most", 1 << (17 if q else 24), timeout=3000)
    c.run("tx", "round", *s, "--n", 20_000 if q else 500_000, "--secs", 8 if q else 900, timeout=3000)
    c.run("tx", "full", *s, "--n", 20_000 if q else 1_000_000, "--secs", 8 if q else 600, timeout=3000)
    recs = c.run("tx", "round", *s, "--record", 150 if q else 3000)
    if not c.viols:
        front(c, recs, "round", 2, module="TraceSend")
    return done(c, "sequences of commands sent back to back with gaps in between, encoder output fed to every receiver "
                   "front end and clock type, and the whole stack sender - pin - polling receiver; every command of NEC, "
                   "Samsung, RC5 and RC6 and 2^17 (thorough: 2^24) of the others at each of 27 frequencies",
                ["same frequency on both sides, of at least 10 kHz; a pause between commands longer than any symbol"])


# ------------------------------------------------------------------ C13
def c13(c):
    q = c.quick
    r = Job()

    def mc(cm, n, loads, bare=False):
        c.mc("MCSend", "SPECIFICATION Spec\nCONSTANTS\n  CM = %d\n  MAXLEN = %d\n  MAXLOADS = %d\n  BARE = %s\nINVARIANTS Carrier IdleRight\n"
             "CHECK_DEADLOCK FALSE\n" % (cm, n, loads, str(bare).upper()), "MCSend_%d%s" % (cm, "b" if bare else ""), 4, 3000)

    def gen():
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  CM = 64\n  STEPS = 200\nINVARIANT Carrier\nCHECK_DEADLOCK FALSE\n")
        lines = []
        for x in c.simulate("GenSend", cfg, 60 if q else 2000, 210, 4):
            lines.append(" ".join("l" + ".".join(map(str, o[1])) if o[0] == "l" else "t%d" % o[1] for o in json.loads(x)))
        return write(c, "send.txt", lines)

    def gen_stamp():
        cfg = ("SPECIFICATION GSpec\nCONSTANTS\n  CM = 1024\n  MAXLEN = 1\n  SKIP = 1\n  STEPS = 120\n"
               "INVARIANTS Carrier IdleRight\nCHECK_DEADLOCK FALSE\n")
        lines = []
        for x in c.simulate("GenStamp", cfg, 60 if q else 2000, 125, 3):
            lines.append(" ".join("l" + ".".join(map(str, o[1])) if o[0] == "l" else "r" if o[0] == "r" else
                                  "t" + ".".join(map(str, o[1:])) for o in json.loads(x)))
        return write(c, "stamp.txt", lines)

    def mc_stamp():
        n = 3 if q else 5
        c.mc("MCStamp", "SPECIFICATION Spec\nCONSTANTS\n  CM = %d\n  MAXLEN = %d\n  SKIP = %d\nINVARIANTS Carrier IdleRight\n"
             "CHECK_DEADLOCK FALSE\n" % (16 if q else 24, n, n + 1), "MCStamp", 3, 3000)
    s = ["--seed", c.seed]

    def built():
        c.build("tx")
        c.run("tx", "wrap", *s, "--n", 4 if q else 64, timeout=1500)
    parallel(built, r("g", gen), r("gs", gen_stamp), mc_stamp, lambda: mc(16, 3, 3 if q else 4), lambda: mc(23, 4 if q else 6, 2),
             lambda: mc(11, 3, 2 if q else 3, True))
    c.log("built, model checked and generated")
    c.run("tx", "send", *s, "--cases", r["g"])
    c.run("tx", "stamp", *s, "--cases", r["gs"])
    c.run("tx", "stamp", *s, "--n", 300_000 if q else 20_000_000, "--secs", 6 if q else 600, timeout=3000)
    c.run("tx", "send", *s, "--n", 400_000 if q else 20_000_000, "--secs", 12 if q else 1200, timeout=3000)
    recs = c.run("tx", "send", *s, "--record", 200 if q else 3000)
    if not c.viols:
        front(c, recs, "send", 4, module="TraceSend")
    return done(c, "interleavings of load, reset and tick on Sender and PulsedataSender with arbitrary and with encoded trains, "
                   "time stamps that count up, skip values and wrap, "
                   "aimed at the ends of trains, bare senders with counters that start anywhere and pass their end, and runs over the end of the tick counter; distinct by operations",
                ["a load between the tick that ends a train and the next tick is left open; trains have an even number of "
                 "entries, the first 0, the others at least 1"])


# ------------------------------------------------------------------ C14
def c14(c):
    q = c.quick
    r = Job()
    parallel(lambda: c.build("tx"), r("g", lambda: gen_round(c, 150 if q else 5000, 4, 2)), *rates(c))
    c.log("built, model checked and generated")
    s = ["--seed", c.seed]
    c.run("tx", "train", *s, "--cases", r["g"])
    c.run("tx", "train", *s, "--sweep", 1, "--most", 1 << (17 if q else 24), timeout=3000)
    c.run("tx", "train", *s, "--n", 20_000 if q else 500_000, "--secs", 8 if q else 900, timeout=3000)
    recs = c.run("tx", "train", *s, "--record", 150 if q else 3000)
    if not c.viols:
        front(c, recs, "train", 4, module="TraceSend")
    return done(c, "pulse trains of every command of NEC, Samsung, RC5 and RC6 and of 2^17 (thorough: 2^24) of the others "
                   "at each of 27 frequencies against the specified waveform; evaluations are batches of 2048",
                ["frequencies of at least 10 kHz; buffer of sufficient size"])


CHECKS = {"C01": (c01, "model_checking"), "C13": (c13, "model_checking"), "C14": (c14, "model_checking")}
