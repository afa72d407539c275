//! Receivers against the specification.
//!
//!   mon run    random edge sequences, judged by the tables TLC exported
//!   mon replay behaviours of the specification (TLC) in the real code
//!   mon record runs of the real code, for TLC to judge
use harness::gen::{Op, Plan, Seq};
use harness::model::{DecSt, Model, Offer, Proto, Tables};
use harness::recv::{make, mono_max, mono_ok, FRONTS};
use harness::util::*;
use harness::{Ev, PROTOS, R};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

const MONOS: [&str; 4] = ["u32", "u64", "f32", "f64"];

fn cmd(r: &R) -> R {
    match r {
        R::C(_) => *r,
        _ => R::N,
    }
}

/// The part of the outcome that the property is about.
/// Kept in step with Judge in spec/TraceRecv.tla.
fn judge(mode: &str, p: &str, spec: &R, offer: Offer, code: &R) -> bool {
    match mode {
        "all" => spec == code,
        // none: it only has to survive
        "none" => true,
        // frames: complete frames are reported, once, with the right fields
        "frames" => match offer {
            Offer::Rep | Offer::NoRep => true,
            _ => {
                let rep = is_rep(p, code);
                rep || cmd(spec) == cmd(code)
            }
        },
        // phantom: a reported command is what was received
        "phantom" => !code.is_cmd() || spec == code,
        // repeat: repeat codes
        "repeat" => match offer {
            Offer::Rep | Offer::NoRep => cmd(spec) == cmd(code),
            _ => !is_rep(p, code),
        },
        // errors: broken frames
        "errors" => !(spec.is_err() || code.is_err()) || spec == code,
        x => panic!("mode {x}"),
    }
}

/// A complete frame (or frame and repeat code) with this content ends with the
/// last edge, wherever one starts listening.
fn heard(p: &Arc<Proto>, f: u32, ev: &[Ev], code: &R) -> bool {
    (ev.len().saturating_sub(2000)..ev.len()).any(|a| {
        let mut m = Model::new(p, f);
        let mut r = R::N;
        for e in &ev[a..] {
            r = m.recv(e.e, e.dt).0;
        }
        r == *code
    })
}

fn is_rep(p: &str, r: &R) -> bool {
    match r {
        R::C(v) => match p {
            "nec" | "nec16" | "samsung" => v[2] == 1,
            "apple" => v[3] == 1,
            _ => false,
        },
        _ => false,
    }
}

fn line(p: &str, f: u32, fe: &str, mono: &str, ev: &[Ev], out: &[R]) -> String {
    let mut s = format!("{p} {f} {fe} {mono}");
    // of the longest only the end is shown (the seed gives the rest)
    let from = if ev.len() > 20_000 { ev.len() - 400 } else { 0 };
    if from > 0 {
        s += &format!(" ({from} edges) ...");
    }
    for (i, e) in ev.iter().enumerate().skip(from) {
        s += &format!(
            " {}:{}:{}",
            e.e as u8,
            e.dt,
            out.get(i).map(|r| r.show()).unwrap_or("?".into())
        );
    }
    s
}

struct Cfg {
    t: Tables,
    mode: String,
    protos: Vec<String>,
    ops: Vec<Op>,
    maxops: u64,
    seed: u64,
    /// case n is a single frame with content n
    sweep: bool,
    /// number of transmissions, if every case is a long life of one receiver
    life: u64,
    /// longest run
    long: u64,
}

struct Case {
    p: String,
    f: u32,
    fe: &'static str,
    mono: &'static str,
    ev: Vec<Ev>,
}

impl Cfg {
    fn long(&self, r: &mut Rng) -> u64 {
        if self.long == 300 && self.life == 0 && r.chance(1, 3000) {
            70_000
        } else {
            self.long
        }
    }
    fn ops(&self, r: &mut Rng) -> u64 {
        if self.life > 0 {
            self.life
        } else {
            1 + r.below(self.maxops)
        }
    }
}
/// Time stamps must not run out
fn front_for(fe: &'static str, mono: &str, ev: &[Ev]) -> &'static str {
    if fe.contains("inst") && ev.iter().map(|e| e.dt as u128).sum::<u128>() > mono_max(mono) as u128 / 2 {
        if fe == "inst" { "edge" } else { "pin" }
    } else {
        fe
    }
}

/// Case number n of this run
fn make_case(c: &Cfg, n: u64) -> Case {
    let mut r = Rng::new(c.seed.wrapping_mul(0x1_0000_01).wrapping_add(n));
    let p = if c.life > 0 { c.protos[n as usize % c.protos.len()].clone() } else { r.pick(&c.protos).clone() };
    let f = *r.pick(&c.t.freqs);
    let fe = *r.pick(&FRONTS);
    let mono = loop {
        let m = *r.pick(&MONOS);
        if mono_ok(m, f) {
            break m;
        }
    };
    let pr = &c.t.protos[&p];
    let win = pr.win[&f].clone();
    let mh = pr.max_hi(f);
    let max = if fe == "inst" || fe == "pininst" {
        (mh * 40).min(mono_max(mono) / 64)
    } else {
        mono_max(mono)
    };
    let plan = Plan { p: pr, w: &win, f, max, nominal: r.chance(1, 6), alt: true, long: c.long(&mut r) };
    let mut s = Seq { ev: vec![], ops: vec![] };
    if c.sweep {
        // spread n over the fields of the command (a bijection)
        let k: u32 = pr.layout.iter().map(|l| l.1).sum::<u32>() + (p == "rc6") as u32;
        let mask = if k >= 64 { u64::MAX } else { (1u64 << k) - 1 };
        let mut v = n.wrapping_mul(0x9E37_79B1).wrapping_add(c.seed) & mask;
        if k > 32 {
            v = r.next() & mask;
        }
        let tog = p == "rc6" && v & 1 == 1;
        if p == "rc6" {
            v >>= 1;
        }
        let mut bits = if pr.pairs.is_empty() { 0 } else { r.next() & ((1u64 << pr.nbits) - 1) };
        for &(at, len, _) in &pr.layout {
            let m = ((1u64 << len) - 1) << (at - 1);
            bits = (bits & !m) | ((v << (at - 1)) & m);
            v >>= len;
        }
        for &(i, j, inv) in &pr.pairs {
            let x = ((bits >> (i - 1)) & 0xFF) ^ if inv { 0xFF } else { 0 };
            bits = (bits & !(0xFF << (j - 1))) | (x << (j - 1));
        }
        if p == "apple" {
            bits |= 0x43F << 5;
            if bits.count_ones() % 2 == 0 {
                bits ^= 1 << 16;
            }
        }
        if p == "rc5" {
            bits |= 1;
        }
        plan.clean(bits, tog, &mut r, &mut s);
        return Case { p, f, fe, mono, ev: s.ev };
    }
    for _ in 0..c.ops(&mut r) {
        let op = *r.pick(&c.ops);
        plan.op(op, &mut r, &mut s);
    }
    let fe = front_for(fe, mono, &s.ev);
    Case { p, f, fe, mono, ev: s.ev }
}

fn run_code(c: &Case, slot: u64, n: u64) -> Result<Vec<R>, (Vec<R>, String)> {
    let mut out = Vec::with_capacity(c.ev.len());
    let r = guard(|| {
        beat(slot, n);
        let mut rx = make(&c.p, c.fe, c.mono, c.f);
        for e in &c.ev {
            out.push(rx.ev(e.e, e.dt));
        }
        beat(slot, n);
    });
    idle(slot);
    match r {
        Ok(()) => Ok(out),
        Err(m) => Err((out, m)),
    }
}

fn parse_ops(s: &str) -> Vec<Op> {
    s.split(',')
        .map(|x| match x {
            "clean" => Op::Clean,
            "corrupt" => Op::Corrupt,
            "abort" => Op::Abort,
            "repeat" => Op::Repeat,
            "noise" => Op::Noise,
            "splice" => Op::Splice,
            "run" => Op::Run,
            "walk" => Op::Walk,
            _ => panic!("op {x}"),
        })
        .collect()
}

fn run(a: &Args) {
    let n = a.num("--n", 1000);
    let nt = a.num("--threads", 8);
    let secs = a.num("--secs", 3600);
    let cfg = Arc::new(Cfg {
        t: Tables::load(a.opt("--tables").unwrap()),
        mode: a.opt("--mode").unwrap().to_string(),
        protos: a.opt("--protos").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or(
            PROTOS.iter().map(|x| x.to_string()).collect(),
        ),
        ops: parse_ops(a.opt("--ops").unwrap_or("clean,clean,corrupt,abort,repeat,noise,run,walk")),
        maxops: a.num("--maxops", 4),
        seed: a.num("--seed", 1),
        sweep: a.opt("--sweep").is_some(),
        life: a.num("--life", 0),
        long: a.num("--long", 300),
    });
    watchdog(120, "mon run");
    let start = std::time::Instant::now();
    let viols = Arc::new(AtomicU64::new(0));
    let c2 = cfg.clone();
    let res = threads(nt, move |ti| {
        let cfg = &c2;
        let mut distinct = HashSet::new();
        let mut cover: HashSet<(usize, u16, bool, usize)> = HashSet::new();
        let (mut cases, mut events, mut cmds, mut errs, mut reps) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut sample = String::new();
        let mut k = ti;
        while k < n && viols.load(Ordering::Relaxed) < 5 {
            if cases % 64 == 0 && start.elapsed().as_secs() >= secs {
                break;
            }
            let c = make_case(cfg, k + 1);
            k += nt;
            cases += 1;
            events += c.ev.len() as u64;
            let h: Vec<u64> = c
                .ev
                .iter()
                .map(|e| e.dt.wrapping_mul(2).wrapping_add(e.e as u64))
                .chain([c.f as u64, PROTOS.iter().position(|p| *p == c.p).unwrap() as u64])
                .collect();
            distinct.insert(hash(&h));
            let (out, panic) = match run_code(&c, ti, k) {
                Ok(o) => (o, None),
                Err((o, m)) => (o, Some(m)),
            };
            let pi = PROTOS.iter().position(|p| *p == c.p).unwrap();
            let mut m = Model::new(&cfg.t.protos[&c.p], c.f);
            let mut spec = vec![];
            let mut bad = None;
            for (i, e) in c.ev.iter().enumerate() {
                let cl = if m.p.biphase {
                    m.classify(e.dt)
                } else if e.e {
                    m.classify(e.dt.saturating_add(m.save))
                } else {
                    0
                };
                cover.insert((pi, m.st, e.e, cl));
                let (r, o) = m.recv(e.e, e.dt);
                spec.push(r);
                match r {
                    R::C(_) if o == Offer::Rep => reps += 1,
                    R::C(_) => cmds += 1,
                    R::E(_) => errs += 1,
                    _ => {}
                }
                if bad.is_none() {
                    match out.get(i) {
                        None => bad = Some((i, format!("panic: {}", panic.clone().unwrap_or_default()))),
                        Some(code) => {
                            if !judge(&cfg.mode, &c.p, &r, o, code)
                                && !(cfg.mode == "phantom" && heard(&cfg.t.protos[&c.p], c.f, &c.ev[..=i], code))
                            {
                                bad = Some((
                                    i,
                                    format!("code {} specification {}", code.show(), r.show()),
                                ));
                            }
                        }
                    }
                }
            }
            if let Some((i, why)) = bad {
                viols.fetch_add(1, Ordering::Relaxed);
                println!(
                    "VIOL event {i} {why} @ {}",
                    line(&c.p, c.f, c.fe, c.mono, &c.ev[..=i], &spec[..=i])
                );
            }
            if sample.is_empty() && cases == 3 {
                sample = line(&c.p, c.f, c.fe, c.mono, &c.ev, &out);
                if sample.len() > 20_000 {
                    let k = (0..=20_000).rev().find(|k| sample.is_char_boundary(*k)).unwrap();
                    sample.truncate(k);
                    sample += " ...";
                }
            }
        }
        (distinct, cover, [cases, events, cmds, errs, reps], sample)
    });
    let mut distinct = HashSet::new();
    let mut cover = HashSet::new();
    let mut sums = [0u64; 5];
    for (d, c, s, sample) in res {
        distinct.extend(d);
        cover.extend(c);
        for i in 0..5 {
            sums[i] += s[i];
        }
        if !sample.is_empty() {
            println!("SAMPLE {sample}");
        }
    }
    // transitions a receiver can take: from states in which nothing is pending
    let mut total = 0u64;
    for p in &cfg.protos {
        let pr = &cfg.t.protos[p];
        for (i, s) in pr.states.iter().enumerate() {
            if matches!(s.kind, DecSt::Idle | DecSt::Receiving) {
                for e in 0..2 {
                    total += pr.tr[i][e].iter().filter(|t| t.is_some()).count() as u64;
                }
            }
        }
    }
    stat("cases", sums[0]);
    stat("distinct", distinct.len() as u64);
    stat("events", sums[1]);
    stat("commands", sums[2]);
    stat("errors", sums[3]);
    stat("repeats", sums[4]);
    stat("spec_transitions_covered", cover.len() as u64);
    stat("spec_transitions_total", total);
}

fn parse_ev(t: &str) -> (Ev, R) {
    let mut it = t.split(':');
    let e = it.next().unwrap() == "1";
    let dt = it.next().unwrap().parse().unwrap();
    (Ev { e, dt }, R::parse(it.next().unwrap()))
}

/// Lines "p f e:dt:R ..." with the outcome the specification prescribes
fn replay(a: &Args) {
    let t = Tables::load(a.opt("--tables").unwrap());
    let mode = a.opt("--mode").unwrap();
    let text = std::fs::read_to_string(a.opt("--cases").unwrap()).unwrap();
    watchdog(120, "mon replay");
    let (mut cases, mut events, mut runs, mut viols) = (0u64, 0u64, 0u64, 0);
    for l in text.lines() {
        let tok: Vec<&str> = l.split(' ').collect();
        let p = tok[0];
        let f: u32 = tok[1].parse().unwrap();
        let all: Vec<(Ev, R)> = tok[2..].iter().map(|t| parse_ev(t)).collect();
        cases += 1;
        events += all.len() as u64;
        // the interpreter must agree with TLC
        let mut m = Model::new(&t.protos[p], f);
        let mut offers = vec![];
        for (i, (e, want)) in all.iter().enumerate() {
            let (r, o) = m.recv(e.e, e.dt);
            offers.push(o);
            if r != *want {
                println!("TOOLERR interpreter {} TLC {} at event {i} of {l}", r.show(), want.show());
                std::process::exit(2);
            }
        }
        let total: u64 = all.iter().map(|x| x.0.dt).sum();
        for fe in FRONTS {
            for mono in MONOS {
                if !mono_ok(mono, f) {
                    continue;
                }
                if (fe == "inst" || fe == "pininst") && total > mono_max(mono) / 2 - 1 {
                    continue;
                }
                let c = Case {
                    p: p.into(),
                    f,
                    fe,
                    mono,
                    ev: all.iter().map(|x| x.0).collect(),
                };
                runs += 1;
                let (out, panic) = match run_code(&c, 0, cases) {
                    Ok(o) => (o, None),
                    Err((o, m)) => (o, Some(m)),
                };
                for (i, (_, want)) in all.iter().enumerate() {
                    let why = match out.get(i) {
                        None => format!("panic: {}", panic.clone().unwrap_or_default()),
                        Some(code)
                            if !judge(mode, p, want, offers[i], code)
                                && !(mode == "phantom" && heard(&t.protos[p], f, &c.ev[..=i], code)) =>
                        {
                            format!("code {} specification {}", code.show(), want.show())
                        }
                        _ => continue,
                    };
                    viols += 1;
                    let spec: Vec<R> = all.iter().map(|x| x.1).collect();
                    println!("VIOL event {i} {why} @ {}", line(p, f, fe, mono, &c.ev[..=i], &spec));
                    break;
                }
                if viols >= 5 {
                    std::process::exit(0);
                }
            }
        }
    }
    stat("tlc_traces", cases);
    stat("tlc_trace_events", events);
    stat("replays", runs);
}

/// Complete frames that start after an idle gap: (first event, last event)
fn clean_frames(t: &Tables, c: &Case) -> Vec<(usize, usize)> {
    let pr = &t.protos[&c.p];
    let mh = pr.max_hi(c.f);
    let mut out = vec![];
    for j in 0..c.ev.len() {
        if !c.ev[j].e || c.ev[j].dt <= mh {
            continue;
        }
        let mut m = Model::new(pr, c.f);
        for k in j..c.ev.len() {
            // no edge of the frame itself is missed
            if k > j && (c.ev[k].dt > mh || c.ev[k].e == c.ev[k - 1].e) {
                break;
            }
            let (r, o) = m.recv(c.ev[k].e, c.ev[k].dt);
            if o == Offer::Cmd && r.is_cmd() {
                out.push((j, k));
            }
            if o != Offer::None || r != R::N {
                break;
            }
        }
    }
    out
}

/// What a fresh receiver says at the last event of a frame
fn fresh(c: &Case, j: usize, k: usize) -> Option<R> {
    let d = Case { p: c.p.clone(), f: c.f, fe: c.fe, mono: c.mono, ev: c.ev[j..=k].to_vec() };
    run_code(&d, 63, 1).ok().and_then(|o| o.last().copied())
}

fn make_resync(cfg: &Cfg, n: u64) -> Case {
    let mut r = Rng::new(cfg.seed.wrapping_mul(0x1_0000_01).wrapping_add(n) ^ 0xC08);
    let p = if cfg.life > 0 { cfg.protos[n as usize % cfg.protos.len()].clone() } else { r.pick(&cfg.protos).clone() };
    let f = *r.pick(&cfg.t.freqs);
    let fe = *r.pick(&FRONTS);
    let mono = loop {
        let m = *r.pick(&MONOS);
        if mono_ok(m, f) {
            break m;
        }
    };
    let pr = &cfg.t.protos[&p];
    let win = pr.win[&f].clone();
    let mh = pr.max_hi(f);
    let max = if fe == "inst" || fe == "pininst" {
        (mh * 40).min(mono_max(mono) / 64)
    } else {
        mono_max(mono)
    };
    let alt = r.chance(1, 2);
    let plan = Plan { p: pr, w: &win, f, max, nominal: r.chance(1, 6), alt, long: cfg.long(&mut r) };
    let mut s = Seq { ev: vec![], ops: vec![] };
    for _ in 0..cfg.ops(&mut r) {
        let op = *r.pick(&cfg.ops);
        plan.op(op, &mut r, &mut s);
        if !alt && r.chance(1, 4) && s.ev.len() > 2 {
            // a missed edge
            let n = s.ev.len() as u64;
            let k = n - 1 - r.below(n.min(400));
            s.ev.remove(k as usize);
        }
    }
    if s.ev.is_empty() {
        s.ev.push(Ev { e: true, dt: 1 });
    }
    plan.op(Op::Clean, &mut r, &mut s);
    let fe = front_for(fe, mono, &s.ev);
    Case { p, f, fe, mono, ev: s.ev }
}

/// After an idle gap: like a fresh receiver
fn resync(a: &Args) {
    let cfg = Arc::new(Cfg {
        t: Tables::load(a.opt("--tables").unwrap()),
        mode: "resync".into(),
        protos: a.opt("--protos").unwrap().split(',').map(|x| x.to_string()).collect(),
        ops: parse_ops(a.opt("--ops").unwrap_or("clean,corrupt,abort,repeat,splice,noise,noise,run,walk")),
        maxops: a.num("--maxops", 4),
        seed: a.num("--seed", 1),
        sweep: false,
        life: a.num("--life", 0),
        long: if a.opt("--record").is_some() { 30 } else { a.num("--long", 300) },
    });
    let rec = a.opt("--record").is_some();
    watchdog(120, "mon resync");
    // behaviours of the specification
    let mut given = vec![];
    if let Some(f) = a.opt("--cases") {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let tok: Vec<&str> = l.split(' ').collect();
            let f: u32 = tok[1].parse().unwrap();
            let ev: Vec<Ev> = tok[2..].iter().map(|t| parse_ev(t).0).collect();
            for fe in FRONTS {
                for mono in MONOS {
                    let total: u64 = ev.iter().map(|e| e.dt).sum();
                    if mono_ok(mono, f) && (fe != "inst" && fe != "pininst" || total < mono_max(mono) / 2) {
                        given.push((tok[0].to_string(), f, fe, mono, ev.clone()));
                    }
                }
            }
        }
        stat("replays", given.len() as u64);
    }
    let n = if given.is_empty() { a.num("--n", 1000) } else { given.len() as u64 };
    let nt = if rec { 1 } else { 8 };
    let start = std::time::Instant::now();
    let secs = a.num("--secs", 3600);
    let viols = Arc::new(AtomicU64::new(0));
    let res = threads(nt, move |ti| {
        let mut distinct = HashSet::new();
        let mut st: HashSet<(String, u16)> = HashSet::new();
        let (mut cases, mut frames, mut skipped) = (0u64, 0u64, 0u64);
        let mut k = ti;
        while k < n && viols.load(Ordering::Relaxed) < 5 {
            if cases % 64 == 0 && start.elapsed().as_secs() >= secs {
                break;
            }
            let c = if given.is_empty() {
                make_resync(&cfg, k + 1)
            } else {
                let g = &given[k as usize];
                Case { p: g.0.clone(), f: g.1, fe: g.2, mono: g.3, ev: g.4.clone() }
            };
            k += nt;
            cases += 1;
            distinct.insert(hash(&c.ev.iter().map(|e| e.dt.wrapping_mul(2).wrapping_add(e.e as u64)).collect::<Vec<_>>()));
            let fr = clean_frames(&cfg.t, &c);
            let (out, panic) = match run_code(&c, ti, k) {
                Ok(o) => (o, None),
                Err((o, m)) => (o, Some(m)),
            };
            let mut fresh_out = vec![None; c.ev.len()];
            let mut m = Model::new(&cfg.t.protos[&c.p], c.f);
            let mut at = 0;
            for (j, e) in fr {
                if out.len() <= e {
                    break;
                }
                // where the history had left the receiver, by the specification
                for x in &c.ev[at..j] {
                    m.recv(x.e, x.dt);
                }
                at = at.max(j);
                st.insert((c.p.clone(), m.st));
                frames += 1;
                match fresh(&c, j, e) {
                    None => skipped += 1,
                    Some(want) => {
                        fresh_out[e] = Some(want);
                        if out[e] != want && viols.fetch_add(1, Ordering::Relaxed) < 5 {
                            println!(
                                "VIOL event {e}: code {} fresh receiver (from event {j}) {} @ {}",
                                out[e].show(),
                                want.show(),
                                line(&c.p, c.f, c.fe, c.mono, &c.ev[..=e], &out[..=e])
                            );
                        }
                    }
                }
            }
            if let Some(m) = panic {
                // the frame after it is lost
                println!("VIOL panic in history: {m} @ {}", line(&c.p, c.f, c.fe, c.mono, &c.ev[..=out.len()], &out));
                viols.fetch_add(1, Ordering::Relaxed);
                continue;
            }
            if rec {
                let nv = cfg.t.protos[&c.p].layout.len() + 1;
                let evs: Vec<String> = (0..c.ev.len())
                    .map(|i| {
                        let x = match &fresh_out[i] {
                            Some(r) => format!(",{}", json(nv, r)),
                            None => String::new(),
                        };
                        format!("[{},{},{}{}]", c.ev[i].e as u8, c.ev[i].dt.min(500_000_000), json(nv, &out[i]), x)
                    })
                    .collect();
                println!(
                    "REC {{\"p\":\"{}\",\"f\":{},\"fe\":\"{}\",\"mono\":\"{}\",\"ev\":[{}]}}",
                    c.p, c.f, c.fe, c.mono, evs.join(",")
                );
            } else if cases == 3 {
                println!("SAMPLE {}", line(&c.p, c.f, c.fe, c.mono, &c.ev, &out));
            }
        }
        (distinct, st, [cases, frames, skipped])
    });
    let mut distinct = HashSet::new();
    let mut st = HashSet::new();
    let mut sums = [0u64; 3];
    for (d, s, n) in res {
        distinct.extend(d);
        st.extend(s);
        for i in 0..3 {
            sums[i] += n[i];
        }
    }
    if !rec {
        stat("cases", sums[0]);
        stat("distinct", distinct.len() as u64);
        stat("frames_after_gap", sums[1]);
        stat("history_states", st.len() as u64);
    }
}

fn json(nv: usize, r: &R) -> String {
    match r {
        R::N => "[]".into(),
        R::E(k) => {
            format!("[\"e\",\"{}\"]", ["Address", "Data", "Validation", "Remote", "Pin"][*k as usize])
        }
        R::C(v) => {
            // Denon: anything above the 48 bits makes an extra value
            let n = if v[nv..].iter().all(|x| *x == 0) { nv } else { 5 };
            format!(
                "[\"c\",[{}]]",
                v[..n].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            )
        }
    }
}

/// Runs of the real code as JSON lines for spec/TraceRecv.tla
fn record(a: &Args) {
    let cfg = Cfg {
        t: Tables::load(a.opt("--tables").unwrap()),
        mode: a.opt("--mode").unwrap().to_string(),
        protos: a.opt("--protos").unwrap().split(',').map(|x| x.to_string()).collect(),
        ops: parse_ops(a.opt("--ops").unwrap_or("clean,clean,corrupt,abort,repeat,noise,run,walk")),
        maxops: a.num("--maxops", 4),
        seed: a.num("--seed", 1) ^ 0x5EED,
        sweep: false,
        life: 0,
        long: 30,
    };
    watchdog(120, "mon record");
    for k in 0..a.num("--n", 100) {
        let c = make_case(&cfg, k + 1);
        let nv = {
            let p = &cfg.t.protos[&c.p];
            p.layout.len() + 1
        };
        let out = match run_code(&c, 0, k + 1) {
            Ok(o) => o,
            Err((o, m)) => {
                println!("VIOL event {} panic: {m} @ {}", o.len(), line(&c.p, c.f, c.fe, c.mono, &c.ev[..=o.len()], &[]));
                continue;
            }
        };
        let evs: Vec<String> = c
            .ev
            .iter()
            .zip(&out)
            .map(|(e, r)| format!("[{},{},{}]", e.e as u8, e.dt.min(500_000_000), json(nv, r)))
            .collect();
        println!(
            "REC {{\"p\":\"{}\",\"f\":{},\"fe\":\"{}\",\"mono\":\"{}\",\"ev\":[{}]}}",
            c.p,
            c.f,
            c.fe,
            c.mono,
            evs.join(",")
        );
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "run" => run(&a),
        "replay" => replay(&a),
        "record" => record(&a),
        "resync" => resync(&a),
        x => panic!("{x}"),
    }
}
