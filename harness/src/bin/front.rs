//! Front ends: event, time stamps, polling, pins, buffers, decoders.
//!
//!   front agree|inst|poll|wrap|phase|pin|dec|chaos
//!     --cases FILE   replay behaviours of the specification (TLC)
//!     --record N     print runs for TLC to judge
//!     --n N          random cases
use harness::drive::*;
use harness::gen::{any_len, bits, Op, Plan, Seq};
use harness::model::{DecSt, Model, Offer, Tables};
use harness::recv::*;
use harness::util::*;
use harness::{is_nec, Ev, PROTOS, R};
use infrared::receiver::{DecodingError, State};
use std::sync::Arc;

struct Ctx {
    t: Tables,
    rec: bool,
    cases: Option<Vec<(String, u32, Vec<(Ev, String)>)>>,
}

fn ctx(a: &Args) -> (Arc<Ctx>, u64, u64) {
    let cases = a.opt("--cases").map(read_cases);
    let rec = a.opt("--record").is_some();
    let n = match &cases {
        Some(c) => c.len() as u64,
        None if rec => a.num("--record", 100),
        None => a.num("--n", 1000),
    };
    let t = Tables::load(a.opt("--tables").unwrap());
    (Arc::new(Ctx { t, rec, cases }), n, if rec { 1 } else { 8 })
}

/// Outcomes; a panic ends the run and is the last outcome (E(9))
fn run_rx(p: &str, fe: &str, mono: &str, f: u32, ev: &[Ev], o: &Out) -> Vec<R> {
    let mut out = vec![];
    let r = o.call(|| {
        let mut rx = make(p, fe, mono, f);
        for e in ev {
            out.push(rx.ev(e.e, e.dt));
        }
    });
    if r.is_err() {
        out.push(R::E(9));
    }
    out
}
fn js(v: &[R], nv: usize) -> String {
    format!("[{}]", v.iter().map(|r| r.json(nv)).collect::<Vec<_>>().join(","))
}

// ------------------------------------------------------------------ agree
fn agree(a: &Args) {
    let (c, n, nt) = ctx(a);
    drive("front agree", a, n, nt, move |k, r, o| {
        let (p, f, ev) = match &c.cases {
            Some(cs) => {
                let x = &cs[k as usize];
                (x.0.clone(), x.1, x.2.iter().map(|e| e.0).collect::<Vec<_>>())
            }
            None => {
                let p = r.pick(&PROTOS).to_string();
                let f = if r.chance(2, 3) { *r.pick(&HZ) } else { *r.pick(&c.t.freqs) };
                let pr = &c.t.protos[&p];
                let max = match r.below(4) {
                    0 => u64::MAX,
                    1 => u32::MAX as u64,
                    _ => pr.max_hi(f) * 40,
                };
                let alt = r.chance(3, 4);
                let mut ev = history(pr, f, max, alt, 5, r);
                if k % 4096 == 4095 && alt {
                    // a very long buffer
                    while ev.len() < 70_000 {
                        let mut s = Seq { ev, ops: vec![] };
                        let w = pr.win[&f].clone();
                        let plan = Plan { p: pr, w: &w, f, max: pr.max_hi(f) * 40, nominal: false, alt, long: 20 };
                        plan.op(*r.pick(&[Op::Clean, Op::Corrupt, Op::Repeat]), r, &mut s);
                        ev = s.ev;
                    }
                }
                (p, f, ev)
            }
        };
        o.seen(&format!("{p}{f}"), &ev);
        let want = run_rx(&p, "edge", "u32", f, &ev, o);
        let mut outs = vec![want.clone()];
        for mono in MONOS {
            if !mono_ok(mono, f) {
                continue;
            }
            for fe in FRONTS {
                if (fe == "inst" || fe == "pininst") && !fits(&ev, mono) {
                    continue;
                }
                let got = run_rx(&p, fe, mono, f, &ev, o);
                o.add("runs", 1);
                if got != want {
                    let i = (0..).find(|&i| got.get(i) != want.get(i)).unwrap();
                    o.viol(format!(
                        "{p} at {f} Hz: {fe}/{mono} gives {} where edge/u32 gives {} at event {i} of {}",
                        got.get(i).map(|r| r.show()).unwrap_or("nothing".into()),
                        want.get(i).map(|r| r.show()).unwrap_or("nothing".into()),
                        show_ev(&ev[..=i.min(ev.len() - 1)])
                    ));
                }
                outs.push(got);
            }
        }
        let mut bufs = vec![];
        if alternates(&ev) && !want.contains(&R::E(9)) {
            let wc: Vec<R> = want.iter().filter(|r| r.is_cmd()).copied().collect();
            let dts: Vec<u64> = ev.iter().map(|e| e.dt).collect();
            for mono in MONOS {
                if !mono_ok(mono, f) {
                    continue;
                }
                for how in 0..4u8 {
                    let got = o.call(|| make_buffer(&p, mono, f, how, &dts)).unwrap_or(vec![R::E(9)]);
                    o.add("buffers", 1);
                    if got != wc {
                        o.viol(format!(
                            "{p} at {f} Hz: buffer iterator ({how}, {mono}) yields {} commands {:?}, a receiver {} {:?} for {}",
                            got.len(),
                            got.iter().take(4).map(|r| r.show()).collect::<Vec<_>>(),
                            wc.len(),
                            wc.iter().take(4).map(|r| r.show()).collect::<Vec<_>>(),
                            show_ev(&ev[..ev.len().min(400)])
                        ));
                    }
                    bufs.push(got);
                }
            }
        }
        o.add("commands", want.iter().filter(|r| r.is_cmd()).count() as u64);
        if c.rec && ev.len() < 2000 && !outs.iter().any(|x| x.contains(&R::E(9))) {
            let nv = nv(&c.t, &p);
            println!(
                "REC {{\"p\":\"{p}\",\"f\":{f},\"outs\":[{}],\"bufs\":[{}]}}",
                outs.iter().map(|x| js(x, nv)).collect::<Vec<_>>().join(","),
                bufs.iter().map(|x| js(x, nv)).collect::<Vec<_>>().join(",")
            );
        }
        if k == 3 {
            o.sample = Some(format!("{p} {f} {}", show_ev(&ev[..ev.len().min(80)])));
        }
    });
}

// ------------------------------------------------------------------- inst
fn bits_of(mono: &str) -> u32 {
    match mono {
        "u32" | "f32" | "f32p" => 32,
        _ => 64,
    }
}
fn wraps(mono: &str) -> bool {
    mono.starts_with('f')
}
/// The duration a receiver has to derive; None: left open
fn delta(mono: &str, a: u64, b: u64) -> Option<u64> {
    if !wraps(mono) {
        return Some(b.saturating_sub(a));
    }
    let (d, half) = match bits_of(mono) {
        32 => ((b as u32).wrapping_sub(a as u32) as u64, 1u64 << 31),
        _ => (b.wrapping_sub(a), 1u64 << 63),
    };
    if d == half || (d > half && b > a) {
        return None;
    }
    Some(if d < half { d } else { 0 })
}
fn to_ticks(mono: &str, h: i64, off: i64) -> u64 {
    let b = bits_of(mono);
    let x = (h as i128) * (1i128 << (b - 4)) + off as i128;
    (x.rem_euclid(1i128 << b)) as u64
}
/// normalised as Stamp in IrAdapters.tla
fn norm(h: i64, off: i64) -> (i64, i64) {
    let k = h.rem_euclid(16);
    if k == 0 && off < 0 {
        (16, off)
    } else {
        (k, off)
    }
}
fn spec_delta(kind: &str, a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    if kind == "plain" {
        if a <= b {
            (b.0 - a.0, b.1 - a.1)
        } else {
            (0, 0)
        }
    } else {
        let h = (b.0 - a.0).rem_euclid(16);
        let off = b.1 - a.1;
        if h < 8 && (h > 0 || off >= 0) {
            (h, off)
        } else {
            (0, 0)
        }
    }
}

/// Outcomes of a time stamp receiver and of one that is told the durations
fn stamps(p: &str, f: u32, mono: &str, fe: &str, ev: &[(bool, u64, u64)], o: &Out) -> (Vec<R>, Vec<R>) {
    let (mut x, mut y) = (vec![], vec![]);
    let r = o.call(|| {
        let mut rx = make_rxi(p, fe, mono, f);
        for e in ev {
            x.push(rx.at(e.0, e.1).unwrap_or(R::E(8)));
        }
    });
    if r.is_err() {
        x.push(R::E(9));
    }
    let r = o.call(|| {
        let mut rx = make(p, "edge", mono, f);
        for e in ev {
            y.push(rx.ev(e.0, e.2));
        }
    });
    if r.is_err() {
        y.push(R::E(9));
    }
    (x, y)
}

fn judge_stamps(p: &str, f: u32, mono: &str, ev: &[(bool, u64, u64)], o: &mut Out) -> Option<(Vec<R>, Vec<R>)> {
    let mut keep = None;
    for fe in ["stamp", "pinstamp"] {
        let (x, y) = stamps(p, f, mono, fe, ev, o);
        o.add("runs", 1);
        o.add("commands", y.iter().filter(|r| r.is_cmd()).count() as u64);
        if x != y {
            let i = (0..).find(|&i| x.get(i) != y.get(i)).unwrap();
            o.viol(format!(
                "{p} at {f} Hz, {mono}: event_instant ({fe}) gives {} where the durations give {} at event {i}; (edge, stamp, duration): {:?}",
                x.get(i).map(|r| r.show()).unwrap_or("-".into()),
                y.get(i).map(|r| r.show()).unwrap_or("-".into()),
                &ev[i.saturating_sub(90)..=i.min(ev.len() - 1)]
            ));
        }
        keep = Some((x, y));
    }
    keep
}

fn inst(a: &Args) {
    // TLC cases have their own format: "kind p f e:h:o:dh:do ..."
    if let Some(path) = a.opt("--cases") {
        let lines: Vec<String> = std::fs::read_to_string(path).unwrap().lines().map(|s| s.to_string()).collect();
        let n = lines.len() as u64;
        drive("front inst replay", a, n, 8, move |k, _r, o| {
            let t: Vec<&str> = lines[k as usize].split(' ').collect();
            let (kind, p, f) = (t[0], t[1], t[2].parse::<u32>().unwrap());
            let monos: &[&str] = if kind == "plain" { &["u32", "u64"] } else { &["f32", "f64", "f32p", "f64p"] };
            for mono in monos {
                if !mono_ok(mono, f) {
                    continue;
                }
                let mut prev = 0u64;
                let mut ev = vec![];
                for x in &t[3..] {
                    let v: Vec<i64> = x.split(':').map(|y| y.parse().unwrap()).collect();
                    let s = to_ticks(mono, v[1], v[2]);
                    let d = to_ticks(mono, v[3], v[4]);
                    match delta(mono, prev, s) {
                        Some(x) if x == d => {}
                        y => {
                            println!("TOOLERR duration {y:?} TLC {d} for {prev} -> {s} ({mono}) in {}", lines[k as usize]);
                            std::process::exit(2);
                        }
                    }
                    prev = s;
                    ev.push((v[0] == 1, s, d));
                }
                let e2: Vec<Ev> = ev.iter().map(|e| Ev { e: e.0, dt: e.1 }).collect();
                o.seen(mono, &e2);
                judge_stamps(p, f, mono, &ev, o);
            }
            o.add("tlc_traces", 1);
        });
        return;
    }
    let (c, n, nt) = ctx(a);
    drive("front inst", a, n, nt, move |k, r, o| {
        let p = r.pick(&PROTOS).to_string();
        let pr = &c.t.protos[&p];
        let mono = *r.pick(&MONOS);
        let f = loop {
            let f = *r.pick(&c.t.freqs);
            if mono_ok(mono, f) && (f <= 4_000_000 || bits_of(mono) == 64) {
                break f;
            }
        };
        let base = history(pr, f, pr.max_hi(f) * 30, r.chance(3, 4), 3, r);
        let kind = if wraps(mono) { "wrap" } else { "plain" };
        let small = c.rec || r.chance(1, 2);
        let mut ev = vec![];
        let mut recs = vec![];
        let mut jumps = 0;
        let dj = *r.pick(&[50, 300, 1500]);
        let mut t = 0u64;
        if small {
            // stamps as sixteenths and offsets, as in the specification
            let mut u = (0i64, 0i64);
            let start = match r.below(5) {
                0 => (0, 0),
                1 => (1 + r.below(6) as i64, r.below(1000) as i64),
                2 if kind == "plain" => (16, -1 - r.below(total(&base) as u64 + 1) as i64),
                2 | 3 => (7, r.below(1000) as i64),
                _ => (5, -(r.below(1000) as i64)),
            };
            let mut first = true;
            for e in &base {
                let mut w = if first { norm(start.0, start.1) } else { norm(u.0, u.1 + e.dt as i64) };
                if !first {
                    let z = r.below(dj);
                    let cand = match z {
                        1 => Some((u.0 + 1 + r.below(7) as i64, u.1 + e.dt as i64)),
                        2 if u.0 > 7 => Some((u.0 - 1 - r.below(7) as i64, u.1 + e.dt as i64)),
                        3 | 4 if u.0 >= 9 => Some((16, -1 - r.below(total(&base) as u64 / 4 + 1) as i64)),
                        3 | 4 => Some((u.0 + 7, u.1)),
                        5 => Some((u.0, u.1 - 1 - r.below(50) as i64)),
                        _ => None,
                    };
                    if let Some(x) = cand {
                        // keep inside the counter
                        if x.0 > 0 && (x.0 < 16 || (x.0 == 16 && x.1 < 0) || kind == "wrap") {
                            w = norm(x.0, x.1);
                            jumps += 1;
                        }
                    }
                }
                let mut s = to_ticks(mono, w.0, w.1);
                let mut d = delta(mono, t, s);
                if d.is_none() {
                    w = norm(u.0, u.1 + e.dt as i64);
                    s = to_ticks(mono, w.0, w.1);
                    d = delta(mono, t, s);
                }
                let Some(d) = d else { return };
                let sd = spec_delta(kind, if first { (0, 0) } else { u }, w);
                ev.push((e.e, s, d));
                recs.push((w, sd));
                t = s;
                u = w;
                first = false;
            }
        } else {
            // anywhere in the full range
            let max = mono_max(mono);
            for (i, e) in base.iter().enumerate() {
                let z = r.below(dj);
                let mut s = match z {
                    0 => r.next() & max,
                    1 => t.wrapping_add(r.next() & (max >> 1)) & max,
                    2 => max - r.below(100),
                    3 => r.below(3),
                    4 => { let b = 10 + r.below(20); t.wrapping_sub(r.below(1 << b)) & max },
                    5 => t,
                    _ => t.wrapping_add(e.dt) & max,
                };
                if i == 0 && r.chance(1, 2) {
                    s = match r.below(3) {
                        0 => max / 2 - r.below(1000),
                        1 => max - r.below(total(&base) as u64 + 1),
                        _ => r.next() & max,
                    };
                }
                let mut d = delta(mono, t, s);
                if d.is_none() {
                    s = t.wrapping_add(e.dt) & max;
                    d = delta(mono, t, s);
                }
                let Some(d) = d else { return };
                ev.push((e.e, s, d));
                t = s;
            }
        }
        let e2: Vec<Ev> = ev.iter().map(|e| Ev { e: e.0, dt: e.1 }).collect();
        o.seen(mono, &e2);
        o.add("jumps", jumps);
        o.add("wraps", ev.windows(2).filter(|w| w[1].1 < w[0].1 && w[1].2 > 0).count() as u64);
        let kept = judge_stamps(&p, f, mono, &ev, o);
        if c.rec {
            let (x, y) = kept.unwrap();
            if x.contains(&R::E(9)) || y.contains(&R::E(9)) {
                return;
            }
            let nv = nv(&c.t, &p);
            let evs: Vec<String> = (0..ev.len())
                .map(|i| {
                    format!("[{},{},{},{},{},{}]", recs[i].0 .0, recs[i].0 .1, recs[i].1 .0, recs[i].1 .1, x[i].json(nv), y[i].json(nv))
                })
                .collect();
            println!("REC {{\"kind\":\"{kind}\",\"mono\":\"{mono}\",\"p\":\"{p}\",\"f\":{f},\"ev\":[{}]}}", evs.join(","));
        }
        if k == 3 {
            o.sample = Some(format!("{p} {f} {mono} (edge, stamp, duration) {:?}", &ev[..ev.len().min(50)]));
        }
    });
}

// ------------------------------------------------------------------- poll
/// Plays level changes through a poll receiver; per event the outcome of the
/// poll that sees it and the number of other polls that gave anything
fn play(p: &str, f: u32, pin: bool, ev: &[Ev], o: &Out) -> Result<Vec<(R, u64)>, String> {
    o.call(|| {
        let mut rx = make_poll(p, f, pin);
        let mut lv = false;
        let mut out = vec![];
        for e in ev {
            let (mut others, mut left) = (0, e.dt - 1);
            while left > 0 {
                let n = left.min(1 << 26);
                others += rx.polls(lv, n);
                left -= n;
                if n > 1 << 20 {
                    beat(o.slot, o.case);
                }
            }
            let x = rx.poll(e.e).unwrap_or(R::E(8));
            lv = e.e;
            out.push((x, others));
        }
        out
    })
}
fn judge_poll(p: &str, f: u32, ev: &[Ev], want: &[R], pin: bool, o: &mut Out) -> Option<Vec<(R, u64)>> {
    o.add("runs", 1);
    let got = match play(p, f, pin, ev, o) {
        Ok(g) => g,
        Err(m) => {
            if !want.contains(&R::E(9)) {
                o.viol(format!("{p} polled at {f} Hz (pin: {pin}): panic {m}; (level after polls): {}", show_ev(&ev[..ev.len().min(400)])));
            }
            return None;
        }
    };
    for i in 0..ev.len() {
        if got[i].1 != 0 {
            o.viol(format!("{p} polled at {f} Hz (pin: {pin}): {} polls without a level change gave something before event {i} of {}", got[i].1, show_ev(&ev[..=i])));
            return None;
        }
        if want.get(i) != Some(&got[i].0) {
            o.viol(format!(
                "{p} polled at {f} Hz (pin: {pin}): {} where an event receiver gives {} at event {i} of {}",
                got[i].0.show(),
                want.get(i).map(|x| x.show()).unwrap_or("panic".into()),
                show_ev(&ev[..=i])
            ));
            return None;
        }
    }
    Some(got)
}

fn poll(a: &Args) {
    let (c, n, nt) = ctx(a);
    drive("front poll", a, n, nt, move |k, r, o| {
        let (p, f, mut ev) = match &c.cases {
            Some(cs) => {
                let x = &cs[k as usize];
                (x.0.clone(), x.1, x.2.iter().map(|e| e.0).collect::<Vec<_>>())
            }
            None => {
                let p = r.pick(&PROTOS).to_string();
                let f = loop {
                    let f = *r.pick(&c.t.freqs);
                    if f <= 200_000 || r.chance(1, 20) {
                        break f;
                    }
                };
                let pr = &c.t.protos[&p];
                let max = pr.max_hi(f) * 10;
                (p, f, history(pr, f, max, true, 3, r))
            }
        };
        for e in ev.iter_mut() {
            e.dt = e.dt.clamp(1, 2_000_000);
        }
        if !alternates(&ev) {
            return;
        }
        o.seen(&format!("{p}{f}"), &ev);
        o.add("polls", total(&ev) as u64);
        let want = run_rx(&p, "edge", "u32", f, &ev, o);
        o.add("commands", want.iter().filter(|r| r.is_cmd()).count() as u64);
        for pin in [false, true] {
            let got = judge_poll(&p, f, &ev, &want, pin, o);
            if let (true, Some(g)) = (c.rec, got) {
                // <<level, polls at it, first outcome, others, reference, its duration>>
                let nv = nv(&c.t, &p);
                let mut evs = vec![];
                // idle line before the first edge
                if ev[0].dt > 1 {
                    evs.push(format!("[0,{},[],{},[],0]", ev[0].dt - 1 + 1, g[0].1));
                }
                for i in 0..ev.len() {
                    let here = if i + 1 < ev.len() { ev[i + 1].dt } else { 1 };
                    let others = if i + 1 < ev.len() { g[i + 1].1 } else { 0 };
                    evs.push(format!("[{},{},{},{},{},{}]", ev[i].e as u8, here, g[i].0.json(nv), others, want[i].json(nv), ev[i].dt));
                }
                println!("REC {{\"p\":\"{p}\",\"f\":{f},\"pin\":{},\"ev\":[{}]}}", pin as u8, evs.join(","));
            }
        }
        if k == 3 {
            o.sample = Some(format!("{p} polled at {f} Hz, level after polls: {}", show_ev(&ev[..ev.len().min(60)])));
        }
    });
}

/// The poll counter wraps while a frame is being received
fn wrap(a: &Args) {
    let (c, _, _) = ctx(a);
    let n = a.num("--n", 8);
    let a_seed = a.num("--seed", 1);
    drive("front wrap", a, n, 8, move |k, r, o| {
        let p = ["nec", "rc5", "rc6", "sbp", "denon", "samsung", "apple", "raw", "nec16"][((k + a_seed) % 9) as usize];
        let f = *r.pick(&[20_000, 38_000, 44_100]);
        let pr = &c.t.protos[p];
        // every pulse the longest or shortest that is accepted, so that one poll more or less counts
        let mut w2 = pr.win[&f].to_vec();
        for x in w2.iter_mut() {
            match k % 4 {
                0 | 1 => (x.glo, x.base) = (x.hi, x.hi),
                2 => (x.hi, x.base) = (x.glo, x.glo),
                _ => {}
            }
        }
        let plan = Plan { p: pr, w: &w2, f, max: pr.max_hi(f) * 3, nominal: k % 4 < 3, alt: true, long: 20 };
        let mut s = Seq { ev: vec![], ops: vec![] };
        let mut b = bits(pr, r);
        if p == "apple" {
            b = (b & !(0x7FF << 5)) | (0x43F << 5);
            if b.count_ones() % 2 == 0 {
                b ^= 1 << 16;
            }
        }
        plan.clean(b, true, r, &mut s);
        let len: u64 = s.ev[1..].iter().map(|e| e.dt.max(1)).sum();
        // the counter passes its end inside this first frame
        s.ev[0].dt = (1u64 << 32) - 1 - r.below(len.saturating_sub(2).max(1));
        plan.clean(b, false, r, &mut s);
        for e in s.ev.iter_mut() {
            e.dt = e.dt.max(1);
        }
        let want = run_rx(p, "edge", "u32", f, &s.ev, o);
        o.add("commands_after_wrap", want.iter().filter(|r| r.is_cmd()).count() as u64);
        judge_poll(p, f, &s.ev, &want, k % 8 == 7, o);
        o.add("counter_wraps", 1);
        o.seen(p, &s.ev);
    });
}

/// Nominal frames sampled at any phase are received
fn phase(a: &Args) {
    if let Some(path) = a.opt("--cases") {
        // behaviours of the specification: level, polls, outcome
        let cs = read_cases(path);
        let n = cs.len() as u64;
        drive("front phase replay", a, n, 8, move |k, _r, o| {
            let (p, f, all) = &cs[k as usize];
            let ev: Vec<Ev> = all.iter().map(|x| x.0).collect();
            let want: Vec<R> = all.iter().map(|x| R::parse(&x.1)).collect();
            o.seen(&format!("{p}{f}"), &ev);
            for pin in [false, true] {
                judge_poll(p, *f, &ev, &want, pin, o);
            }
            o.add("tlc_traces", 1);
        });
        return;
    }
    let (c, n, _) = ctx(a);
    drive("front phase", a, n, 8, move |k, r, o| {
        let p = r.pick(&PROTOS).to_string();
        let pr = &c.t.protos[&p];
        let f = match r.below(8) {
            0 => 10_000 + r.below(50) as u32,
            1 => *r.pick(&[10_000, 20_000, 38_000, 40_000, 44_100, 48_000, 100_000]),
            2 => 10f64.powf(5.0 + r.below(1000) as f64 / 1000.0) as u32,
            _ => (10f64.powf(4.0 + r.below(100_000) as f64 / 100_000.0)) as u32,
        };
        let w = pr.win[&1_000_000].clone();
        let plan = Plan { p: pr, w: &w, f: 1_000_000, max: 200_000, nominal: true, alt: true, long: 20 };
        let mut s = Seq { ev: vec![], ops: vec![] };
        for _ in 0..2 {
            let b = bits(pr, r);
            plan.clean(b, r.chance(1, 2), r, &mut s);
        }
        // the second frame starts at a different phase
        s.ev[0].dt = 100_000 + r.below(1000);
        // and the last bit of the last frame is complete
        let mut m = Model::new(pr, 1_000_000);
        let want: Vec<R> = s.ev.iter().map(|e| m.recv(e.e, e.dt).0).collect();
        let ph = r.below(1 << 20) as u128;
        let mut us = 0u128;
        let mut at = 0u128;
        let ev: Vec<Ev> = s
            .ev
            .iter()
            .map(|e| {
                us += e.dt as u128;
                // samples before this time
                let x = (us * f as u128 * (1 << 20) / 1_000_000 + ph) >> 20;
                let d = x - at;
                at = x;
                Ev { e: e.e, dt: d as u64 }
            })
            .collect();
        o.seen(&format!("{p}{f}"), &ev);
        let pin = k % 2 == 1;
        match play(&p, f, pin, &ev, o) {
            Err(m) => o.viol(format!("{p} polled at {f} Hz: panic {m}")),
            Ok(g) => {
                let got: Vec<R> = g.iter().map(|x| x.0).collect();
                let bad = (0..ev.len()).find(|&i| got[i] != want[i]);
                o.add("commands", want.iter().filter(|r| r.is_cmd()).count() as u64);
                if let Some(i) = bad {
                    o.viol(format!(
                        "{p} frame with nominal pulses polled at {f} Hz, phase {ph}/2^20: {} instead of {} at edge {i}; level after polls {}",
                        got[i].show(),
                        want[i].show(),
                        show_ev(&ev[..=i])
                    ));
                }
            }
        }
        if k == 3 {
            o.sample = Some(format!("{p} nominal frames polled at {f} Hz phase {ph}/2^20: {}", show_ev(&ev[..ev.len().min(40)])));
        }
    });
}

// -------------------------------------------------------------------- pin
#[derive(Clone, Copy, Debug)]
enum Call {
    /// pass on the next event
    Good,
    /// the read fails with this code
    Bad(u32),
}

fn pin(a: &Args) {
    let (c, n, nt) = ctx(a);
    drive("front pin", a, n, nt, move |k, r, o| {
        let (p, f, mut ev, given) = match &c.cases {
            Some(cs) => {
                let x = &cs[k as usize];
                (x.0.clone(), x.1, x.2.iter().map(|e| e.0).collect::<Vec<_>>(), true)
            }
            None => {
                let p = r.pick(&PROTOS).to_string();
                let f = *r.pick(&c.t.freqs);
                let pr = &c.t.protos[&p];
                let max = if r.chance(1, 3) { u32::MAX as u64 } else { pr.max_hi(f) * 10 };
                (p.clone(), f, history(pr, f, max, r.chance(2, 3), 3, r), false)
            }
        };
        if c.rec {
            ev.truncate(300);
        }
        let kinds: &[&str] = if given { &["pindur", "pinstamp", "poll"] } else { &["pindur", "pindur", "pinstamp", "poll"] };
        let kind = if given { kinds[(k % 3) as usize] } else { *r.pick(kinds) };
        let mono = if kind == "poll" { "u32" } else { mono_for(r, f) };
        if kind == "pinstamp" && !fits(&ev, mono) {
            return;
        }
        if kind == "poll" {
            if !alternates(&ev) {
                return;
            }
            for e in ev.iter_mut() {
                e.dt = e.dt.clamp(1, 3000);
            }
        }
        // where to fail: one position each (TLC behaviours), or anywhere
        let plans: Vec<Vec<Call>> = if given {
            (0..=ev.len())
                .map(|pos| {
                    let mut v = vec![Call::Good; ev.len()];
                    v.insert(pos, Call::Bad(1 + r.below(1_000_000) as u32));
                    v
                })
                .collect()
        } else {
            let mut v = vec![];
            let dense = r.chance(1, 3);
            for _ in 0..ev.len() {
                while r.chance(1, if dense { 2 } else { 15 }) {
                    v.push(Call::Bad(1 + r.below(1_000_000) as u32));
                }
                v.push(Call::Good);
            }
            vec![v]
        };
        let want = run_rx(&p, "edge", if kind == "poll" { "u32" } else { mono }, f, &ev, o);
        if want.contains(&R::E(9)) {
            return;
        }
        o.seen(&format!("{p}{f}{kind}{mono}"), &ev);
        let ev2 = ev.clone();
        for calls in plans {
            let seed = r.next();
            let mut out: Vec<Result<R, u32>> = vec![];
            let (pp, kd, mm) = (p.clone(), kind, mono);
            let res = o.call(|| {
                let mut q = Rng::new(seed);
                if kd == "poll" {
                    let mut rx = make_poll(&pp, f, true);
                    let mut lv = false;
                    let mut next = 0;
                    for cl in &calls {
                        match cl {
                            Call::Bad(code) => {
                                // in the middle of the idle polls too
                                let pn = rx.pin().unwrap().clone();
                                pn.fail.set(*code);
                                out.push(rx.poll(q.chance(1, 2)));
                                pn.fail.set(0);
                            }
                            Call::Good => {
                                let e = ev2[next];
                                next += 1;
                                let mut left = e.dt - 1;
                                let mut others = 0;
                                while left > 0 {
                                    let m = 1 + q.below(left);
                                    others += rx.polls(lv, m);
                                    left -= m;
                                    if q.chance(1, 20) {
                                        let pn = rx.pin().unwrap().clone();
                                        pn.fail.set(77);
                                        if rx.poll(q.chance(1, 2)) != Err(77) {
                                            others += 1;
                                        }
                                        pn.fail.set(0);
                                    }
                                }
                                lv = e.e;
                                let x = rx.poll(e.e);
                                out.push(if others > 0 { Ok(R::E(8)) } else { x });
                            }
                        }
                    }
                } else {
                    let mut rx = make_rxi(&pp, kd, mm, f);
                    let pn = rx.pin().unwrap().clone();
                    let mut t = 0u64;
                    let mut next = 0;
                    for cl in &calls {
                        match cl {
                            Call::Bad(code) => {
                                let d = ev2.get(next).map(|e| e.dt).unwrap_or(5);
                                let at = match (kd, q.below(5)) {
                                    ("pinstamp", 0) => t,
                                    ("pinstamp", 1) => t.wrapping_add(d) & mono_max(mm),
                                    ("pinstamp", 2) => t.wrapping_add(d / 2) & mono_max(mm),
                                    (_, 3) => 0,
                                    (_, 4) => q.next() & mono_max(mm),
                                    _ => d,
                                };
                                pn.fail.set(*code);
                                out.push(rx.at(q.chance(1, 2), at));
                                pn.fail.set(0);
                            }
                            Call::Good => {
                                let e = ev2[next];
                                next += 1;
                                t = t.wrapping_add(e.dt) & mono_max(mm);
                                out.push(rx.at(e.e, if kd == "pinstamp" { t } else { e.dt }));
                            }
                        }
                    }
                }
            });
            o.add("runs", 1);
            o.add("faults", calls.iter().filter(|c| matches!(c, Call::Bad(_))).count() as u64);
            let mut g = 0;
            let mut bad = None;
            for (i, cl) in calls.iter().enumerate() {
                let w = match cl {
                    Call::Bad(code) => Err(*code),
                    Call::Good => {
                        g += 1;
                        Ok(want[g - 1])
                    }
                };
                if out.get(i) != Some(&w) {
                    bad = Some((i, w, out.get(i).copied()));
                    break;
                }
            }
            if let Some((i, w, x)) = bad {
                let what = |x: Option<Result<R, u32>>| match x {
                    None => format!("panic ({})", res.clone().err().unwrap_or_default()),
                    Some(Ok(r)) => r.show(),
                    Some(Err(k)) => format!("pin error {k}"),
                };
                o.viol(format!(
                    "{p} at {f} Hz, {kind}/{mono}: call {i} gives {} instead of {}; calls {:?}; events {}",
                    what(x),
                    what(Some(w)),
                    &calls[..=i].iter().enumerate().filter_map(|(j, c)| if let Call::Bad(k) = c { Some((j, *k)) } else { None }).collect::<Vec<_>>(),
                    show_ev(&ev[..g.min(ev.len())])
                ));
                return;
            }
            if c.rec {
                let nv = nv(&c.t, &p);
                let cs: Vec<String> = out.iter().map(|x| match x { Ok(r) => r.json(nv), Err(k) => format!("[\"pin\",{k}]") }).collect();
                let fl: Vec<String> = calls.iter().map(|c| match c { Call::Bad(k) => k.to_string(), _ => "0".into() }).collect();
                println!("REC {{\"p\":\"{p}\",\"f\":{f},\"calls\":[{}],\"fail\":[{}],\"ref\":{}}}", cs.join(","), fl.join(","), js(&want, nv));
            }
        }
        if c.cases.is_some() {
            o.add("tlc_traces", 1);
        }
        if k == 3 {
            o.sample = Some(format!("{p} {f} {kind}/{mono} {}", show_ev(&ev[..ev.len().min(50)])));
        }
    });
}

// -------------------------------------------------------------------- dec
fn no(s: State) -> u8 {
    match s {
        State::Idle => 0,
        State::Receiving => 1,
        State::Done => 2,
        State::Error(DecodingError::Data) => 3,
        State::Error(DecodingError::Address) => 4,
        State::Error(_) => 5,
    }
}
fn mno(k: DecSt) -> u8 {
    match k {
        DecSt::Idle => 0,
        DecSt::Receiving => 1,
        DecSt::Done => 2,
        DecSt::Data => 3,
        DecSt::Address => 4,
    }
}

/// A new decoder that has been told of the frame the model remembers
fn renewed(t: &Tables, p: &str, mono: &str, f: u32, m: &Model) -> Box<dyn Dec> {
    let mut d = make_dec(p, mono, f);
    if is_nec(p) {
        // does the model answer a repeat code?
        let w = &m.win;
        let mut x = Model { p: m.p.clone(), win: m.win.clone(), st: m.st, bits: m.bits, len: m.len, save: m.save };
        x.reset();
        x.step(true, w[1].base);
        if x.state().offer == Offer::Rep {
            let pr = &t.protos[p];
            let plan = Plan { p: pr, w: &m.win, f, max: pr.max_hi(f) * 4, nominal: true, alt: true, long: 20 };
            let mut s = Seq { ev: vec![], ops: vec![] };
            plan.clean(m.bits, false, &mut Rng::new(1), &mut s);
            for e in &s.ev {
                if d.event(e.e, e.dt) == State::Done {
                    break;
                }
            }
            d.reset();
        }
    }
    d
}

fn dec(a: &Args) {
    let (c, n, nt) = ctx(a);
    drive("front dec", a, n, nt, move |k, r, o| {
        // ops: 0/1 edge, 2 reset
        let (p, f, ops) = match &c.cases {
            Some(cs) => {
                // op:dt:state:command, op 2 is kept in the text
                let x = &cs[k as usize];
                (x.0.clone(), x.1, x.2.iter().map(|(e, s)| {
                    let op = s.split(':').next().unwrap().parse::<u8>().unwrap();
                    (op, e.dt, Some(s.clone()))
                }).collect::<Vec<_>>())
            }
            None => {
                let p = r.pick(&PROTOS).to_string();
                let f = *r.pick(&c.t.freqs);
                let pr = &c.t.protos[&p];
                let max = if r.chance(1, 3) { u32::MAX as u64 } else { pr.max_hi(f) * 10 };
                let ev = history(pr, f, max, r.chance(1, 2), 4, r);
                let style = r.below(4);
                let mut m = Model::new(pr, f);
                let mut v = vec![];
                for e in ev {
                    let s = m.step(e.e, e.dt);
                    v.push((e.e as u8, e.dt, None));
                    let reset = match (style, s.kind) {
                        (3, _) => false,
                        (_, DecSt::Idle | DecSt::Receiving) => style > 0 && r.chance(1, 50),
                        (2, _) => r.chance(1, 3),
                        _ => true,
                    };
                    if reset {
                        for _ in 0..1 + r.below(5) / 4 {
                            m.reset();
                            v.push((2, 0, None));
                        }
                    }
                }
                (p, f, v)
            }
        };
        let monos: Vec<&str> = if c.cases.is_some() { MONOS.iter().copied().filter(|m| mono_ok(m, f)).collect() } else { vec![mono_for(r, f)] };
        o.distinct.insert(hash(&ops.iter().map(|x| x.1.wrapping_mul(3).wrapping_add(x.0 as u64)).collect::<Vec<_>>()));
        for mono in monos {
            o.add("runs", 1);
            let nvx = nv(&c.t, &p);
            let mut recs = vec![];
            let mut bad: Option<(usize, String)> = None;
            let res = o.call(|| {
                let mut d = make_dec(&p, mono, f);
                let mut s: Option<Box<dyn Dec>> = None;
                let mut s_state = 0u8;
                let mut state = 0u8;
                let mut m = Model::new(&c.t.protos[&p], f);
                for (i, (op, dt, said)) in ops.iter().enumerate() {
                    if *op == 2 {
                        let ren = renewed(&c.t, &p, mono, f, &m);
                        d.reset();
                        m.reset();
                        s = Some(ren);
                        // what a decoder reports is known only from an event
                        state = 0;
                        s_state = 0;
                    } else {
                        state = no(d.event(*op == 1, *dt));
                        m.step(*op == 1, *dt);
                        if let Some(s) = s.as_mut() {
                            s_state = no(s.event(*op == 1, *dt));
                        }
                    }
                    let c1 = d.command();
                    let c2 = d.command();
                    let mk = m.state().kind;
                    if let Some(said) = said {
                        let mut it = said.split(':');
                        it.next();
                        let st: u8 = it.next().unwrap().parse().unwrap();
                        let cm = R::parse(it.next().unwrap());
                        if st != mno(mk) || cm != m.command() {
                            println!("TOOLERR interpreter {} {} TLC {st} {} at {i} of case {k}", mno(mk), m.command().show(), cm.show());
                            std::process::exit(2);
                        }
                    }
                    let (rs, rc) = match &s {
                        Some(s) => (s_state, s.command()),
                        None => (state, c1),
                    };
                    recs.push(format!("[{op},{},{state},{},{},{rs},{}]", (*dt).min(500_000_000), c1.json(nvx), c2.json(nvx), rc.json(nvx)));
                    let why = if state != 2 && c1 != R::N {
                        format!("command {} although not done (state {state})", c1.show())
                    } else if state == 2 && c1 != c2 {
                        format!("asked twice: {} then {}", c1.show(), c2.show())
                    } else if state == 2 && mk == DecSt::Done && c1 != m.command() {
                        format!("command {} instead of {}", c1.show(), m.command().show())
                    } else if rs != state || rc != c1 {
                        format!("state {state} command {}, a new decoder has state {rs} command {}", c1.show(), rc.show())
                    } else {
                        continue;
                    };
                    bad = Some((i, why));
                    return;
                }
            });
            if let Err(m) = res {
                bad = Some((recs.len().min(ops.len() - 1), format!("panic {m}")));
            }
            if let Some((i, why)) = bad {
                let lo = ops[..=i].iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" ");
                o.viol(format!("{p} decoder at {f} Hz, {mono}: {why} after step {i} of (0/1 edge, 2 reset) {lo}"));
                return;
            }
            if c.rec {
                println!("REC {{\"p\":\"{p}\",\"f\":{f},\"mono\":\"{mono}\",\"ev\":[{}]}}", recs.join(","));
            }
        }
        o.add("resets", ops.iter().filter(|x| x.0 == 2).count() as u64);
        if c.cases.is_some() {
            o.add("tlc_traces", 1);
        }
        if k == 3 {
            o.sample = Some(format!("{p} {f}, op:dt (2 = reset) {}", ops.iter().take(60).map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" ")));
        }
    });
}

// ------------------------------------------------------------------ chaos
fn chaos(a: &Args) {
    let (c, n, nt) = ctx(a);
    drive("front chaos", a, n, nt, move |k, r, o| {
        let (p, f, ev) = match &c.cases {
            Some(cs) => {
                let x = &cs[k as usize];
                (x.0.clone(), x.1, x.2.iter().map(|e| e.0).collect::<Vec<_>>())
            }
            None => {
                let p = r.pick(&PROTOS).to_string();
                let pr = &c.t.protos[&p];
                let tf = if r.chance(1, 2) { *r.pick(&HZ) } else { *r.pick(&c.t.freqs) };
                let f = match r.below(4) {
                    0 => 10f64.powf(3.0 + r.below(5_000_000) as f64 / 1_000_000.0) as u32,
                    _ => tf,
                };
                let max = if r.chance(2, 3) { u64::MAX } else { u32::MAX as u64 };
                let w = pr.win[&tf].clone();
                let mut ev = match r.below(3) {
                    // something over and over
                    _ if r.chance(1, 400) => {
                        let plan = Plan { p: pr, w: &w, f: tf, max, nominal: false, alt: true, long: 70_000 };
                        let mut s = Seq { ev: vec![], ops: vec![] };
                        while s.ev.len() < 300 {
                            plan.op(Op::Run, r, &mut s);
                        }
                        s.ev
                    }
                    _ if r.chance(1, 12) => {
                        let plan = Plan { p: pr, w: &w, f: tf, max, nominal: r.chance(1, 4), alt: true, long: 700 };
                        let mut s = Seq { ev: vec![], ops: vec![] };
                        plan.op(Op::Run, r, &mut s);
                        plan.op(Op::Run, r, &mut s);
                        s.ev
                    }
                    // arbitrary
                    0 => vec![],
                    1 => history(pr, tf, max, false, 5, r),
                    _ => history(pr, tf, max, true, 5, r),
                };
                for _ in 0..r.below(200) {
                    ev.push(Ev { e: r.chance(1, 2), dt: any_len(&w, max, r) });
                }
                // arbitrary lengths inside frames
                for _ in 0..r.below(4) {
                    if ev.is_empty() {
                        break;
                    }
                    let i = r.below(ev.len() as u64) as usize;
                    ev[i].dt = any_len(&w, max, r);
                }
                (p, f, ev)
            }
        };
        o.seen(&format!("{p}{f}"), &ev);
        o.add("events", ev.len() as u64);
        for mono in MONOS {
            if !mono_ok(mono, f) {
                continue;
            }
            for fe in FRONTS {
                o.add("runs", 1);
                let r = o.call(|| {
                    let mut rx = make(&p, fe, mono, f);
                    for e in &ev {
                        rx.ev(e.e, e.dt);
                    }
                });
                if let Err(m) = r {
                    o.viol(format!("panic: {m}: {p} at {f} Hz, {fe}/{mono}: {}", show_ev(&ev)));
                    return;
                }
            }
            // time stamps that are the lengths themselves (they jump about)
            for fe in ["stamp", "pinstamp"] {
                o.add("runs", 1);
                let r = o.call(|| {
                    let mut rx = make_rxi(&p, fe, mono, f);
                    for e in &ev {
                        let _ = rx.at(e.e, e.dt & mono_max(mono));
                    }
                });
                if let Err(m) = r {
                    o.viol(format!("panic: {m}: {p} at {f} Hz, {fe}/{mono}, stamps {}", show_ev(&ev)));
                    return;
                }
            }
            let dts: Vec<u64> = ev.iter().map(|e| e.dt).collect();
            for how in 0..4 {
                o.add("runs", 1);
                match o.call(|| make_buffer(&p, mono, f, how, &dts)) {
                    Err(m) => {
                        o.viol(format!("panic: {m}: {p} at {f} Hz, buffer {how}/{mono}: {dts:?}"));
                        return;
                    }
                    Ok(v) if v.len() > dts.len() => {
                        o.viol(format!("endless buffer iterator: {p} at {f} Hz, buffer {how}/{mono}: {dts:?}"));
                        return;
                    }
                    _ => {}
                }
            }
            // a decoder without resets, asked at any time
            o.add("runs", 1);
            let r = o.call(|| {
                let mut d = make_dec(&p, mono, f);
                for (i, e) in ev.iter().enumerate() {
                    d.event(e.e, e.dt);
                    if i % 3 == 0 {
                        d.command();
                    }
                    if i % 97 == 96 {
                        d.reset();
                    }
                    d.class(e.dt);
                }
                d.overlaps();
            });
            if let Err(m) = r {
                o.viol(format!("panic: {m}: {p} at {f} Hz, decoder {mono}: {}", show_ev(&ev)));
                return;
            }
        }
        for pin in [false, true] {
            o.add("runs", 1);
            let r = o.call(|| {
                let mut rx = make_poll(&p, f, pin);
                for e in &ev {
                    let _ = rx.poll(e.e);
                    rx.polls(e.e, e.dt % 2000);
                    if pin && e.dt % 11 == 3 {
                        rx.pin().unwrap().fail.set((e.dt % 2) as u32);
                    }
                }
            });
            if let Err(m) = r {
                o.viol(format!("panic: {m}: {p} polled at {f} Hz (pin {pin}): {}", show_ev(&ev)));
                return;
            }
        }
        if c.cases.is_some() {
            o.add("tlc_traces", 1);
        }
        if k == 3 {
            o.sample = Some(format!("{p} {f} {}", show_ev(&ev[..ev.len().min(50)])));
        }
    });
}

fn main() {
    silence_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "agree" => agree(&a),
        "inst" => inst(&a),
        "poll" => poll(&a),
        "wrap" => wrap(&a),
        "phase" => phase(&a),
        "pin" => pin(&a),
        "dec" => dec(&a),
        "chaos" => chaos(&a),
        x => panic!("{x}"),
    }
}
