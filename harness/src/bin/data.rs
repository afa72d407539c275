//! Windows, commands and remote controls.
//!
//!   data span|cmd|create|remote
use harness::drive::*;
use harness::model::*;
use harness::recv::*;
use harness::util::*;
use harness::{with_mono, with_proto, Ev, R};
use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::*;
use infrared::receiver::time::PulseSpans;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, NoPin, ProtocolDecoder};
use infrared::remotecontrol::{nec as rnec, rc5 as rrc5, sbp as rsbp, Action, Button, RemoteControlModel};
use infrared::{PeriodicPoll, ProtocolId, Receiver};
use std::collections::HashMap;
use std::sync::Arc;

// ------------------------------------------------------------------- spans
/// A table with its classification: steps (from, class); class 0 is invalid
#[derive(Clone)]
struct Table {
    p: String,
    f: u32,
    us: Vec<u32>,
    tol: Vec<u32>,
    steps: Vec<(u64, usize)>,
    over: bool,
}
const NOMINAL: [(&str, &[u32], &[u32]); 9] = [
    ("nec", &[13500, 11250, 1120, 2250], &[7, 7, 25, 12]),
    ("nec16", &[13500, 11250, 1120, 2250], &[7, 7, 25, 12]),
    ("apple", &[13500, 11250, 1120, 2250], &[7, 7, 25, 12]),
    ("raw", &[13500, 11250, 1120, 2250], &[7, 7, 25, 12]),
    ("samsung", &[9000, 6750, 1120, 2250], &[7, 7, 25, 12]),
    ("sbp", &[9000, 5000, 1000, 2000], &[5, 5, 10, 10]),
    ("denon", &[5000, 840, 1680], &[8, 10, 10]),
    ("rc5", &[889, 1778], &[12, 10]),
    ("rc6", &[444, 888, 1332, 1776, 2220, 2664], &[12, 12, 12, 12, 12, 12]),
];
/// Steps and OverlapOf in IrSpans.tla (compared with TLC for every case it emits)
fn steps(us: &[u32], tol: &[u32], f: u32) -> (Vec<(u64, usize)>, bool) {
    let w: Vec<(u64, u64)> = us
        .iter()
        .zip(tol)
        .map(|(u, t)| {
            let b = *u as u64 * f as u64 / 1_000_000;
            let t = (b * *t as u64).div_ceil(100);
            (b - t, b + t)
        })
        .collect();
    let class = |d: u64| w.iter().position(|x| x.1 > 0 && x.0 <= d && d <= x.1).map_or(0, |k| k + 1);
    let mut at: Vec<u64> = w.iter().flat_map(|x| [x.0, x.1 + 1]).chain([0]).collect();
    at.sort();
    at.dedup();
    let over = (0..w.len()).any(|j| (0..j).any(|k| w[j].1 > 0 && w[k].1 > 0 && w[j].0 <= w[k].1 && w[k].0 <= w[j].1));
    (at.iter().map(|d| (*d, class(*d))).collect(), over)
}
fn read_tables(path: &str) -> Vec<Table> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .map(|l| {
            let t: Vec<&str> = l.split(' ').collect();
            let nums = |s: &str| s.split(',').map(|x| x.parse().unwrap()).collect::<Vec<u32>>();
            let x = Table {
                p: t[0].into(),
                f: t[1].parse().unwrap(),
                us: nums(t[2]),
                tol: nums(t[3]),
                over: t[4] == "1",
                steps: t[5..].iter().map(|y| y.split_once(':').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect(),
            };
            let mine = steps(&x.us, &x.tol, x.f);
            let known = x.p == "-" || NOMINAL.iter().any(|n| n.0 == x.p && n.1 == x.us && n.2 == x.tol);
            if mine != (x.steps.clone(), x.over) || !known {
                println!("TOOLERR windows: {l} and {mine:?}");
                std::process::exit(2);
            }
            x
        })
        .collect()
}
fn class_in(st: &[(u64, usize)], d: u64) -> usize {
    st[st.partition_point(|x| x.0 <= d) - 1].1
}
/// Lengths to ask about
fn lengths(t: &Table, max: u64, every: bool, r: &mut Rng) -> Vec<u64> {
    let last = t.steps.last().unwrap().0;
    let mut v: Vec<u64> = vec![];
    if every && last <= 100_000 {
        v.extend(0..last + 300);
    }
    for (a, _) in &t.steps {
        for k in 0..40 {
            v.push((a + k).saturating_sub(20));
        }
        // the same beyond 32 bits
        v.extend([a.wrapping_add(1 << 32), a.wrapping_add(7 << 40), a.wrapping_add(1 << 31), a.wrapping_add(1 << 63)]);
    }
    for _ in 0..60 {
        v.push(r.below(last * 2 + 10));
        v.push(r.next() >> r.below(64));
    }
    v.extend([last * 3, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]);
    v.retain(|d| *d <= max);
    v
}
/// (class of every length, overlap)
fn ask_proto<P: DecoderBuilder<M>, M: MonoX>(f: u32, ds: &[u64]) -> (Vec<usize>, bool) {
    let d = P::build(f);
    let s = d.spans();
    (ds.iter().map(|d| s.get::<usize>(M::dur(*d)).map_or(0, |k| k + 1)).collect(), s.check_overlaps())
}
fn ask_table<M: MonoX>(t: &Table, ds: &[u64]) -> (Vec<usize>, bool) {
    let mut us = [0; 8];
    let mut tol = [0; 8];
    us[..t.us.len()].copy_from_slice(&t.us);
    tol[..t.tol.len()].copy_from_slice(&t.tol);
    let s = PulseSpans::<M>::new(t.f, &us, &tol);
    (ds.iter().map(|d| s.get::<usize>(M::dur(*d)).map_or(0, |k| k + 1)).collect(), s.check_overlaps())
}
fn check_table(t: &Table, every: bool, r: &mut Rng, o: &mut Out) -> Option<Vec<(u64, usize)>> {
    let mut seen = None;
    for m in MONOS {
        if !mono_ok(m, t.f) {
            continue;
        }
        let mut ds = lengths(t, mono_max(m), every, r);
        if t.p == "-" {
            // whether a window may reach down to zero is not for the property to say
            ds.retain(|d| *d > 0);
        }
        let res = o.call(|| {
            if t.p == "-" {
                with_mono!(m, t.f, M => ask_table::<M>(t, &ds))
            } else {
                with_proto!(t.p.as_str(), P => with_mono!(m, t.f, M => ask_proto::<P, M>(t.f, &ds)))
            }
        });
        o.add("lengths", ds.len() as u64);
        let what = format!("{} at {} Hz, clock {m}, lengths {:?} us, tolerances {:?}", t.p, t.f, t.us, t.tol);
        let (got, over) = match res {
            Err(e) => {
                o.viol(format!("{what}: panic {e}"));
                return None;
            }
            Ok(x) => x,
        };
        for (d, c) in ds.iter().zip(&got) {
            if *c != class_in(&t.steps, *d) {
                o.viol(format!("{what}: a length of {d} ticks is taken for class {c} instead of {} (0: invalid)", class_in(&t.steps, *d)));
                return None;
            }
        }
        if over != t.over {
            o.viol(format!("{what}: overlap query says {over}"));
            return None;
        }
        if seen.is_none() {
            seen = Some(ds.iter().copied().zip(got).filter(|x| x.0 < 20_000_000).step_by(3).take(60).collect());
        }
    }
    seen
}
fn span(a: Args) {
    let cases = a.opt("--cases").map(read_tables);
    let rec = a.opt("--record").is_some();
    let n = match &cases {
        Some(c) => c.len() as u64,
        None if rec => a.num("--record", 10),
        None => a.num("--n", 1000),
    };
    drive("data span", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let t = match &cases {
            Some(c) => {
                o.add("tlc_traces", 1);
                c[k as usize].clone()
            }
            None => {
                let own = r.chance(1, 3);
                let f = match r.below(6) {
                    0 => *r.pick(&HZ),
                    1 => 10_000 + r.below(90_000) as u32,
                    2 => 10_000 + r.below(1 << 20) as u32,
                    3 => 10_000 + r.below(1 << 27) as u32,
                    4 => 1000 * (10 + r.below(490) as u32),
                    _ if rec => 1_000_000 * (1 + r.below(480) as u32),
                    _ => 10_000 + r.below(if own { 3_000_000_000 } else { 100_000_000 }) as u32,
                };
                let (p, us, tol) = if own {
                    let x = r.pick(&NOMINAL);
                    (x.0.to_string(), x.1.to_vec(), x.2.to_vec())
                } else {
                    let n = 1 + r.below(8);
                    let hi = *r.pick(&[3, 30, 3000, 20_000]);
                    (
                        "-".to_string(),
                        (0..n).map(|_| r.below(hi) as u32).collect(),
                        (0..n).map(|_| *r.pick(&[0, 1, 5, 7, 10, 12, 20, 25, 33, 50, 99])).collect(),
                    )
                };
                let (steps, over) = steps(&us, &tol, f);
                Table { p, f, us, tol, steps, over }
            }
        };
        let every = cases.is_some() || r.chance(1, 10);
        if let (Some(obs), true) = (check_table(&t, every, r, o), rec) {
            let o: Vec<String> = obs.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
            println!("REC {{\"us\":{:?},\"tol\":{:?},\"f\":{},\"obs\":[{}],\"over\":{}}}", t.us, t.tol, t.f, o.join(","), t.over as u8);
        }
        o.distinct.insert(hash(&[t.f as u64, hash(&t.us.iter().zip(&t.tol).map(|(a, b)| (*a as u64) << 8 | *b as u64).collect::<Vec<_>>())]));
        if k == 5 {
            o.sample = Some(format!("{} at {} Hz {:?} {:?}: {:?}", t.p, t.f, t.us, t.tol, t.steps));
        }
    });
}

// ---------------------------------------------------------------- commands
fn num(id: ProtocolId) -> u32 {
    id as u8 as u32
}
fn any_vec(x: AnyCommand, raw: bool) -> Vec<u32> {
    // raw bits are given for Denon only
    let w = |k: u32| if raw { ((x.raw >> k) & 0xFFFF) as u32 } else { 0 };
    vec![num(x.protocol), w(0), w(16), w(32), x.address, x.command, x.repeat as u32]
}
/// AnyOf in IrCommands.tla
fn any_of(p: &str, v: &[u32; 5]) -> Option<Vec<u32>> {
    Some(match p {
        "nec" => vec![1, 0, 0, 0, v[0], v[1], v[2]],
        "samsung" => vec![3, 0, 0, 0, v[0], v[1], v[2]],
        "apple" => vec![4, 0, 0, 0, 0, 128 * v[0] + v[1], v[3]],
        "rc5" => vec![5, 0, 0, 0, v[2], v[3], v[1]],
        "rc6" => vec![6, 0, 0, 0, v[0], v[1], v[2]],
        "sbp" => vec![7, 0, 0, 0, v[0], v[1], 0],
        "denon" => vec![8, v[0], v[1], v[2], 0, 0, 0],
        _ => return None,
    })
}
fn direct<C: AddressCommand>(c: &C) -> Vec<u32> {
    vec![num(C::ID), 0, 0, 0, c.address(), c.command(), Command::is_repeat(c) as u32]
}
struct Seen {
    v: [u32; 5],
    ok: Option<bool>,
    any: Option<Vec<u32>>,
    direct: Option<Vec<u32>>,
    /// packed again
    packed: Option<u64>,
}
fn nec_like<C: NecCommandVariant + Val>(bits: u64, g: u32) -> (Option<C>, bool, Option<u64>) {
    let c = C::unpack(bits as u32, g == 1);
    let ok = C::validate(bits as u32);
    (c, ok, None)
}
/// Bits in order of transmission (bit 0 first) -> what the real code makes of them.
/// None: no command
fn unpack(p: &str, bits: u64, g: u32) -> Option<Seen> {
    let msb = |n: u32| (0..n).fold(0u64, |a, i| a << 1 | ((bits >> i) & 1));
    macro_rules! necs {
        ($C:ty, $pack:expr, $any:expr) => {{
            let (c, ok, _) = nec_like::<$C>(bits, g);
            let c = c?;
            #[allow(clippy::redundant_closure_call)]
            let (any, direct) = $any(&c);
            let packed: Option<u64> = if $pack { Some(c.pack() as u64) } else { None };
            Some(Seen { v: c.val(), ok: Some(ok), any, direct, packed })
        }};
    }
    match p {
        "nec" => necs!(NecCommand, true, |c: &NecCommand| (Some(any_vec((*c).into(), false)), Some(direct(c)))),
        "samsung" => necs!(SamsungNecCommand, true, |c: &SamsungNecCommand| (Some(any_vec((*c).into(), false)), Some(direct(c)))),
        "nec16" => necs!(Nec16Command, true, |_: &Nec16Command| (None, None)),
        "raw" => necs!(NecDebugCmd, true, |_: &NecDebugCmd| (None, None)),
        "apple" => necs!(AppleNecCommand, false, |c: &AppleNecCommand| (Some(any_vec((*c).into(), false)), Some(direct(c)))),
        "rc5" => {
            let c = Rc5Command::unpack(msb(14) as u16);
            let back = (0..14).fold(0u64, |a, i| a | ((c.pack() as u64 >> (13 - i)) & 1) << i);
            let high = c.pack() >> 14;
            Some(Seen { v: c.val(), ok: None, any: Some(any_vec(c.into(), false)), direct: Some(direct(&c)), packed: Some(back | (high as u64) << 50) })
        }
        "rc6" => {
            let c = Rc6Command::from_bits(msb(16) as u16, g == 1);
            Some(Seen { v: c.val(), ok: None, direct: Some(direct(&c)), any: Some(any_vec(c.into(), false)), packed: None })
        }
        "sbp" => {
            let c = SbpCommand::unpack(bits as u16, (bits >> 16) as u32);
            Some(Seen { v: c.val(), ok: Some(c.valid), direct: Some(direct(&c)), any: Some(any_vec(c.into(), false)), packed: None })
        }
        "denon" => {
            let c = DenonCommand { bits };
            Some(Seen { v: c.val(), ok: None, any: Some(any_vec(c.into(), true)), direct: None, packed: None })
        }
        x => panic!("{x}"),
    }
}
/// Is the whole frame determined by the fields of a valid command?
fn whole(p: &str) -> bool {
    matches!(p, "nec" | "nec16" | "samsung" | "raw" | "rc5")
}
/// Expected, from the tables of the specification
fn want(pr: &Proto, p: &str, bits: u64, g: u32) -> Option<([u32; 5], bool)> {
    let ok = if p == "apple" { pr.apple_ok(bits) } else { pr.pairs_ok(bits) };
    if p == "apple" && !ok {
        return None;
    }
    Some((pr.values(bits, g, g), ok))
}
fn check_frame(pr: &Proto, p: &str, bits: u64, g: u32, o: &mut Out) -> bool {
    let w = want(pr, p, bits, g);
    let got = match o.call(|| unpack(p, bits, g)) {
        Ok(x) => x,
        Err(m) => {
            o.viol(format!("{p} frame {bits:#x}: panic {m}"));
            return false;
        }
    };
    let bad = match (&w, &got) {
        (None, None) => None,
        (None, Some(s)) => Some(format!("a frame without the redundancy gives {:?}", s.v)),
        (Some((v, _)), None) => Some(format!("no command instead of {v:?}")),
        (Some((v, ok)), Some(s)) => {
            if s.v != *v {
                Some(format!("unpacks to {:?} instead of {v:?}", s.v))
            } else if s.ok.is_some_and(|x| x != *ok) {
                Some(format!("validates to {:?} instead of {ok}", s.ok))
            } else if s.any.is_some() && s.any != any_of(p, v) {
                Some(format!("generic form {:?} instead of {:?}", s.any, any_of(p, v)))
            } else if s.direct.is_some() && s.direct != any_of(p, v) {
                Some(format!("address, command and repeat {:?} instead of {:?}", s.direct, any_of(p, v)))
            } else if *ok && whole(p) && s.packed != Some(bits) {
                Some(format!("unpacked and packed again: {:x?}", s.packed))
            } else {
                None
            }
        }
    };
    // Apple: the verdict on frames that give no command
    let bad = bad.or_else(|| (p == "apple" && AppleNecCommand::validate(bits as u32) != w.is_some()).then(|| "wrong verdict".to_string()));
    if let Some(b) = bad {
        o.viol(format!("{p} frame {bits:#x} (flag {g}): {b}"));
        return false;
    }
    true
}
fn nbits(p: &str) -> u32 {
    match p {
        "rc5" => 14,
        "rc6" => 16,
        "sbp" => 36,
        "denon" => 48,
        _ => 32,
    }
}
/// Every 32 bit frame of a NEC variant: verdict, fields, packing
fn sweep_nec(t: &Tables, p: &str, from: u64, to: u64, o: &mut Out) {
    let pr = &t.protos[p];
    // the redundancy and the layout as masks, taken from the tables
    let masks: Vec<(u32, u32, u32)> = pr.pairs.iter().map(|q| (q.0 - 1, q.1 - 1, if q.2 { 0xFF } else { 0 })).collect();
    let fields: Vec<(u32, u32)> = pr.layout.iter().map(|l| (l.0 - 1, (1u64 << l.1).wrapping_sub(1) as u32)).collect();
    let val = |b: u32, k: usize| fields.get(k).map_or(0, |f| (b >> f.0) & f.1);
    macro_rules! go {
        ($C:ty, $v:expr, $pack:expr) => {{
            for b in from..to {
                let b = b as u32;
                let ok = if p == "apple" { pr.apple_ok(b as u64) } else { masks.iter().all(|m| ((b >> m.0) ^ (b >> m.1)) & 0xFF == m.2) };
                if <$C>::validate(b) != ok {
                    return Err(format!("{p} frame {b:#x} validates to {}", !ok));
                }
                let c = <$C>::unpack(b, false);
                if p == "apple" && c.is_some() != ok {
                    return Err(format!("{p} frame {b:#x} unpacks to {:?}", c.map(|c| c.val())));
                }
                let Some(c) = c else {
                    if p == "apple" { continue }
                    return Err(format!("{p} frame {b:#x} unpacks to nothing"));
                };
                #[allow(clippy::redundant_closure_call)]
                let v: [u32; 3] = $v(&c);
                if v != [val(b, 0), val(b, 1), val(b, 2)] {
                    return Err(format!("{p} frame {b:#x} unpacks to {v:?}"));
                }
                if $pack && ok && c.pack() != b {
                    return Err(format!("{p} frame {b:#x} unpacked and packed gives {:#x}", c.pack()));
                }
            }
            Ok(())
        }};
    }
    o.add("frames", to - from);
    let res = o.call(|| match p {
        "nec" => go!(NecCommand, |c: &NecCommand| [c.addr as u32, c.cmd as u32, c.repeat as u32], true),
        "samsung" => go!(SamsungNecCommand, |c: &SamsungNecCommand| [c.addr as u32, c.cmd as u32, c.repeat as u32], true),
        "nec16" => go!(Nec16Command, |c: &Nec16Command| [c.addr as u32, c.cmd as u32, c.repeat as u32], true),
        "raw" => go!(NecDebugCmd, |c: &NecDebugCmd| [c.bits & 0xFFFF, c.bits >> 16, 0], true),
        "apple" => go!(AppleNecCommand, |c: &AppleNecCommand| [c.command_page as u32, c.command as u32, c.device_id as u32], false),
        x => panic!("{x}"),
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => o.viol(e),
        Err(m) => o.viol(format!("{p} frames {from:#x}..{to:#x}: panic {m}")),
    }
}
fn cmd(a: Args) {
    let t = Arc::new(Tables::load(a.opt("--tables").unwrap()));
    if a.num("--sweep", 0) > 0 {
        // all 2^32 frames of the NEC variants, in strides
        let parts = a.num("--parts", 4096);
        let most = a.num("--most", parts);
        let ps = ["nec", "samsung", "nec16", "raw", "apple"];
        let seed = a.num("--seed", 1);
        drive("data sweep", &a, most * 5, 8, move |k, _r, o| {
            let i = ((k / 5).wrapping_mul(2_654_435_761).wrapping_add(seed)) % parts;
            let size = (1u64 << 32) / parts;
            sweep_nec(&t, ps[(k % 5) as usize], i * size, (i + 1) * size, o);
            o.distinct.insert(k);
        });
        return;
    }
    let lines: Option<Vec<String>> = a.opt("--cases").map(|p| std::fs::read_to_string(p).unwrap().lines().map(String::from).collect());
    let rec = a.opt("--record").is_some();
    let n = match &lines {
        Some(c) => c.len() as u64,
        None if rec => a.num("--record", 10),
        None => a.num("--n", 1000),
    };
    drive("data cmd", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        if let Some(l) = &lines {
            // "p bits flag ok v.v.v any"
            let x: Vec<&str> = l[k as usize].split(' ').collect();
            let (p, bits, g) = (x[0], u64::from_str_radix(x[1], 2).unwrap(), x[2].parse::<u32>().unwrap());
            let mut v = [0; 5];
            x[4].split('.').enumerate().for_each(|(i, y)| v[i] = y.parse().unwrap());
            let any: Vec<u32> = if x[5] == "-" { vec![] } else { x[5].split('.').map(|y| y.parse().unwrap()).collect() };
            let w = want(&t.protos[p], p, bits, g);
            let tlc = (x[3] == "1" || p != "apple").then_some((v, x[3] == "1"));
            if w != tlc || (w.is_some() && any_of(p, &v).unwrap_or_default() != any) {
                println!("TOOLERR {} and {w:?}", l[k as usize]);
                std::process::exit(2);
            }
            o.add("tlc_traces", 1);
            check_frame(&t.protos[p], p, bits, g, o);
            o.distinct.insert(hash(&[bits, k]));
            return;
        }
        let p = *r.pick(&harness::PROTOS);
        let pr = &t.protos[p];
        for _ in 0..if rec { 1 } else { 500 } {
            let bits = if r.chance(1, 3) { r.next() & ((1 << nbits(p)) - 1) } else { harness::gen::bits(pr, r) };
            let bits = if r.chance(1, 6) { bits ^ 1 << r.below(nbits(p) as u64) } else { bits };
            let g = r.below(2) as u32;
            if !check_frame(pr, p, bits, g, o) {
                return;
            }
            o.add("frames", 1);
            if rec {
                if let Some(s) = unpack(p, bits, g) {
                    let b: Vec<String> = (0..nbits(p)).map(|i| ((bits >> i) & 1).to_string()).collect();
                    let nv = pr.layout.len() + 1;
                    let ok = s.ok.unwrap_or(true) as u8;
                    println!("REC {{\"p\":\"{p}\",\"b\":[{}],\"g\":{g},\"v\":{:?},\"ok\":{ok},\"any\":{:?}}}", b.join(","), &s.v[..nv], s.any.unwrap_or_default());
                }
            }
        }
        o.distinct.insert(hash(&[k, 1]));
        if k == 3 {
            o.sample = Some(format!("500 frames of {p}, valid, almost valid and random"));
        }
    });
    if !rec && a.opt("--cases").is_none() {
        small();
    }
}
/// RC5, RC6 and identifiers completely
fn small() {
    let mut n = 0;
    let mut bad = vec![];
    for b in 0..=u16::MAX {
        n += 3;
        let c = Rc5Command::unpack(b & 0x3FFF);
        if c.pack() != b & 0x3FFF {
            bad.push(format!("RC5 frame {b:#x} unpacked and packed gives {:#x}", c.pack()));
        }
        let (a, k) = ((b >> 8) as u8, b as u8);
        if Rc6Command::new(a, k) != (Rc6Command { addr: a, cmd: k, toggle: false }) {
            bad.push(format!("RC6 command of {a} and {k} is {:?}", Rc6Command::new(a, k)));
        }
        let g = b % 3 == 0;
        if Rc5Command::new(a, k, g) != (Rc5Command { addr: a, cmd: k, start: 3, toggle: g }) {
            bad.push(format!("RC5 command of {a}, {k} and {g} is {:?}", Rc5Command::new(a, k, g)));
        }
        for g in [false, true] {
            if Rc6Command::from_bits(b, g) != (Rc6Command { addr: a, cmd: k, toggle: g }) {
                bad.push(format!("RC6 frame {b:#x} unpacks wrongly"));
            }
        }
        let c = NecCommand { addr: a, cmd: k, repeat: b % 3 == 0 };
        let back = NecCommand::unpack(c.pack(), c.repeat);
        if back != Some(c) || !NecCommand::validate(c.pack()) {
            bad.push(format!("{c:?} packs to {:#x}, back {back:?}", c.pack()));
        }
        let c = SamsungNecCommand { addr: a, cmd: k, repeat: b % 3 == 0 };
        let back = SamsungNecCommand::unpack(c.pack(), c.repeat);
        if back != Some(c) || !SamsungNecCommand::validate(c.pack()) {
            bad.push(format!("{c:?} packs to {:#x}, back {back:?}", c.pack()));
        }
        for k in [0u8, 1, 0x55, 0x80, 0xAA, 0xFF, a] {
            let c = Nec16Command { addr: b, cmd: k, repeat: false };
            let back = Nec16Command::unpack(c.pack(), false);
            if back != Some(c) || !Nec16Command::validate(c.pack()) {
                bad.push(format!("{c:?} packs to {:#x}, back {back:?}", c.pack()));
            }
        }
        if b < 1 << 13 {
            let c = Rc5Command { start: 2 + (b & 1) as u8, toggle: b & 2 != 0, addr: (b >> 2) as u8 & 31, cmd: (b >> 7) as u8 };
            let back = Rc5Command::unpack(c.pack());
            if back != c {
                bad.push(format!("{c:?} packs to {:#x}, back {back:?}", c.pack()));
            }
        }
    }
    stat("frames", n);
    for b in bad.iter().take(3) {
        println!("VIOL {b}");
    }
}

// ------------------------------------------------------------------ create
/// Creates a command; (id, address, command, repeat) directly and generic
fn create_one(p: &str, a: u32, c: u32) -> Option<(Vec<u32>, Vec<u32>)> {
    fn go<C: AddressCommand>(a: u32, c: u32) -> Option<(Vec<u32>, Vec<u32>)> {
        let x = C::create(a, c)?;
        let d = direct(&x);
        Some((d, any_vec(x.into(), false)))
    }
    match p {
        "nec" => go::<NecCommand>(a, c),
        "samsung" => go::<SamsungNecCommand>(a, c),
        "apple" => go::<AppleNecCommand>(a, c),
        "rc5" => go::<Rc5Command>(a, c),
        "rc6" => go::<Rc6Command>(a, c),
        "sbp" => go::<SbpCommand>(a, c),
        x => panic!("{x}"),
    }
}
const CP: [&str; 6] = ["nec", "samsung", "apple", "rc5", "rc6", "sbp"];
fn can(p: &str, a: u32, c: u32) -> bool {
    match p {
        "nec" | "samsung" | "rc6" => a <= 255 && c <= 255,
        "rc5" => a <= 31 && c <= 63,
        "sbp" => a <= 65535 && c <= 255,
        _ => false,
    }
}
fn check_create(p: &str, a: u32, c: u32, o: &mut Out) -> bool {
    let id = match p { "nec" => 1, "samsung" => 3, "apple" => 4, "rc5" => 5, "rc6" => 6, _ => 7 };
    let want = can(p, a, c).then(|| (vec![id, 0, 0, 0, a, c, 0], vec![id, 0, 0, 0, a, c, 0]));
    match guard(|| create_one(p, a, c)) {
        Ok(g) if g == want => true,
        g => {
            o.viol(format!("{p}: creating address {a}, command {c} gives {g:?} instead of {want:?}"));
            false
        }
    }
}
fn create(a: Args) {
    let rec = a.opt("--record").is_some();
    if let Some(path) = a.opt("--cases") {
        let lines: Vec<String> = std::fs::read_to_string(path).unwrap().lines().map(String::from).collect();
        let n = lines.len() as u64;
        drive("data create", &a, n, 8, move |k, _, o| {
            let x: Vec<&str> = lines[k as usize].split(' ').collect();
            o.add("tlc_traces", 1);
            o.distinct.insert(k);
            if x[0] == "I" {
                // "I number name"
                let u: u8 = x[1].parse().unwrap();
                let id = ProtocolId::from(u);
                let back = id as u8;
                if format!("{id:?}") != x[2] || (x[2] != "Unknown" && back != u) || (x[2] == "Unknown" && back != 255) {
                    o.viol(format!("protocol id {u} is {id:?}, number {back}, instead of {}", x[2]));
                }
                return;
            }
            let (p, c, d) = (x[1], x[2].parse().unwrap(), x[3].parse().unwrap());
            if can(p, c, d) != (x[4] == "1") {
                println!("TOOLERR {}", lines[k as usize]);
                std::process::exit(2);
            }
            check_create(p, c, d, o);
        });
        return;
    }
    let n = if rec { a.num("--record", 10) } else { a.num("--n", 1000) };
    drive("data create", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let p = CP[(k % 6) as usize];
        if rec {
            let c = |r: &mut Rng| (r.next() >> if r.chance(2, 3) { 56 + r.below(6) } else { 33 + r.below(31) }) as u32;
            let (x, y) = (c(r), c(r));
            let got = create_one(p, x, y);
            let g = got.map_or("[]".to_string(), |g| format!("[{},{}]", g.0[4], g.0[5]));
            println!("REC {{\"p\":\"{p}\",\"a\":{x},\"c\":{y},\"got\":{g}}}");
            return;
        }
        if k < 6 * 512 {
            // every address and command below 512, in rows
            let a = (k / 6) as u32;
            for c in 0..512 {
                if !check_create(p, a, c, o) {
                    return;
                }
            }
        }
        for _ in 0..2000 {
            let c = |r: &mut Rng| match r.below(4) {
                0 => (r.next() >> (32 + r.below(32))) as u32,
                1 => (1u32 << r.below(32)).wrapping_add(r.below(5) as u32).wrapping_sub(2),
                2 => ((r.below(70000) << 16) as u32) | r.below(256) as u32,
                _ => r.below(256) as u32,
            };
            let (x, y) = (c(r), c(r));
            if !check_create(p, x, y, o) {
                return;
            }
        }
        o.add("commands", 2000);
        o.distinct.insert(hash(&[k]));
    });
}

// ------------------------------------------------------------------ remotes
macro_rules! actions {
    ($($x:ident)*) => { const ACTIONS: &[(&str, Action)] = &[$((stringify!($x), Action::$x)),*]; };
}
actions!(Power Source One Two Three Four Five Six Seven Eight Nine Zero Teletext ChannelPrev VolumeUp VolumeDown VolumeMute
    ChannelList ChannelListNext ChannelListPrev Tools Info Return Exit Enter Up Down Left Right Red Green Yellow Blue Emanual
    PictureSize Subtitle Stop Rewind Play Paus Play_Pause Play_Pause2 Forward Mode Shuffle U_SD Plus Minus Next Prev Eq Mute
    Random Repeat Time Setup Menu PitchReset PitchPlus PitchMinus Prog BatteryLow);
fn name(a: Option<Action>) -> &'static str {
    a.map_or("-", |a| ACTIONS.iter().find(|x| x.1 == a).map_or("?", |x| x.0))
}
/// The specification's remotes: protocol, address, code -> action, action -> code (-1: none)
#[derive(Default, Clone)]
struct Model {
    p: String,
    dev: String,
    addr: u32,
    dec: HashMap<u32, String>,
    enc: HashMap<String, i64>,
}
fn read_remotes(path: &str) -> HashMap<String, Model> {
    let mut m: HashMap<String, Model> = HashMap::new();
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let x: Vec<&str> = l.split(' ').collect();
        let e = m.entry(x[1].to_string()).or_default();
        match x[0] {
            "R" => {
                e.p = x[2].into();
                e.addr = x[3].parse().unwrap();
                e.dev = x[4].into();
            }
            "N" => {
                // names of actions, kept apart
                e.p = "-".into();
                e.dec.insert(0, x[2].into());
            }
            "D" => {
                e.dec.insert(x[2].parse().unwrap(), x[3].into());
            }
            _ => {
                e.enc.insert(x[2].into(), x[3].parse().unwrap());
            }
        }
    }
    m
}
impl Model {
    fn decode(&self, a: u32, c: u32) -> &str {
        if a == self.addr { self.dec.get(&c).map_or("-", |x| x.as_str()) } else { "-" }
    }
    fn encode(&self, act: &str) -> i64 {
        self.enc.get(act).copied().unwrap_or(-1)
    }
    fn button(&self, v: &[u32; 5]) -> &str {
        let x = any_of(&self.p, v).unwrap();
        self.decode(x[4], x[5])
    }
}
trait FromVal: Sized {
    fn from_val(v: &[u32; 5]) -> Self;
}
impl FromVal for NecCommand {
    fn from_val(v: &[u32; 5]) -> Self { NecCommand { addr: v[0] as u8, cmd: v[1] as u8, repeat: v[2] == 1 } }
}
impl FromVal for SamsungNecCommand {
    fn from_val(v: &[u32; 5]) -> Self { SamsungNecCommand { addr: v[0] as u8, cmd: v[1] as u8, repeat: v[2] == 1 } }
}
impl FromVal for Rc5Command {
    fn from_val(v: &[u32; 5]) -> Self { Rc5Command { start: v[0] as u8, toggle: v[1] == 1, addr: v[2] as u8, cmd: v[3] as u8 } }
}
impl FromVal for SbpCommand {
    fn from_val(v: &[u32; 5]) -> Self { SbpCommand { address: v[0] as u16, command: v[1] as u8, valid: v[2] == 1 } }
}
impl FromVal for Rc6Command {
    fn from_val(v: &[u32; 5]) -> Self { Rc6Command { addr: v[0] as u8, cmd: v[1] as u8, toggle: v[2] == 1 } }
}
impl FromVal for AppleNecCommand {
    fn from_val(v: &[u32; 5]) -> Self {
        AppleNecCommand { command_page: v[0] as u8, command: v[1] as u8, device_id: v[2] as u8, repeat: v[3] == 1 }
    }
}
const RS: [&str; 9] =
    ["CdPlayer", "SamsungTv", "SpecialForMp3", "SamsungBluRayPlayer", "Apple2009", "UserRc6", "UserNec", "UserBig", "UserEmpty"];
const NR: u64 = RS.len() as u64;
/// Remotes defined by a user (IrRemotes.tla)
#[derive(Default)]
struct UserRc6;
impl RemoteControlModel for UserRc6 {
    const PROTOCOL: ProtocolId = ProtocolId::Rc6;
    const ADDRESS: u32 = 17;
    type Cmd = Rc6Command;
    const BUTTONS: &'static [(u32, Action)] = &[
        (1, Action::One),
        (1, Action::Two),
        (2, Action::Three),
        (300, Action::Four),
        (3, Action::One),
        (4, Action::Four),
        (255, Action::Five),
        (0, Action::Six),
        (2, Action::Three),
    ];
}
#[derive(Default)]
struct UserNec;
impl RemoteControlModel for UserNec {
    const PROTOCOL: ProtocolId = ProtocolId::Nec;
    const ADDRESS: u32 = 256;
    type Cmd = NecCommand;
    const BUTTONS: &'static [(u32, Action)] = &[(1, Action::One), (2, Action::Two)];
}
#[derive(Default)]
struct UserBig;
const fn big() -> [(u32, Action); 300] {
    let mut t = [(0, Action::Power); 300];
    let mut k = 1;
    while k <= 300 {
        t[k - 1] = (37 * k as u32 % 241, ACTIONS[7 * k % ACTIONS.len()].1);
        k += 1;
    }
    t
}
const BIG: [(u32, Action); 300] = big();
impl RemoteControlModel for UserBig {
    const PROTOCOL: ProtocolId = ProtocolId::Sbp;
    const ADDRESS: u32 = 40_000;
    type Cmd = SbpCommand;
    const BUTTONS: &'static [(u32, Action)] = &BIG;
}
/// Nothing but what a remote has to say
#[derive(Default)]
struct UserEmpty;
impl RemoteControlModel for UserEmpty {
    const PROTOCOL: ProtocolId = ProtocolId::Rc5;
    const ADDRESS: u32 = 5;
    type Cmd = Rc5Command;
}
fn about<Rc: RemoteControlModel>() -> (u32, u32, String) {
    (num(Rc::PROTOCOL), Rc::ADDRESS, format!("{:?}", Rc::DEVTYPE))
}
macro_rules! with_remote {
    ($n:expr, $P:ident, $Rc:ident => $b:expr) => {
        match $n {
            "CdPlayer" => { type $P = Rc5; type $Rc = rrc5::CdPlayer; $b }
            "SamsungTv" => { type $P = SamsungNec; type $Rc = rnec::SamsungTv; $b }
            "SpecialForMp3" => { type $P = Nec; type $Rc = rnec::SpecialForMp3; $b }
            "SamsungBluRayPlayer" => { type $P = Sbp; type $Rc = rsbp::SamsungBluRayPlayer; $b }
            "Apple2009" => { type $P = AppleNec; type $Rc = rnec::Apple2009; $b }
            "UserRc6" => { type $P = Rc6; type $Rc = UserRc6; $b }
            "UserNec" => { type $P = Nec; type $Rc = UserNec; $b }
            "UserBig" => { type $P = Sbp; type $Rc = UserBig; $b }
            "UserEmpty" => { type $P = Rc5; type $Rc = UserEmpty; $b }
            x => panic!("{x}"),
        }
    };
}
/// Decoding of a command, directly and as a button: (action, button's action, button's command, button's repeat, command's repeat)
fn decode_one<Rc: RemoteControlModel>(v: &[u32; 5]) -> (&'static str, &'static str, [u32; 5], bool, bool)
where
    Rc::Cmd: FromVal + Val,
{
    let c = Rc::Cmd::from_val(v);
    let a = name(Rc::decode(&c));
    let rep = c.is_repeat();
    let b: Button<Rc> = c.into();
    (a, name(b.action()), b.command().val(), b.is_repeat(), rep)
}
fn encode_one<Rc: RemoteControlModel>(act: Action) -> Option<(u32, u32, &'static str)> {
    let c = Rc::encode(&act)?;
    Some((c.address(), c.command(), name(Rc::decode(&c))))
}
/// A receiver with a remote: outcome and, for a command, the action
trait RRx {
    fn ev(&mut self, e: bool, dt: u64) -> (R, &'static str);
}
fn button<Rc: RemoteControlModel, E>(r: Result<Option<Button<Rc>>, E>, f: impl Fn(E) -> R) -> (R, &'static str)
where
    Rc::Cmd: Val,
{
    match r {
        Ok(None) => (R::N, "-"),
        Ok(Some(b)) => (R::C(b.command().val()), name(b.action())),
        Err(e) => (f(e), "-"),
    }
}
struct BEdge<P: DecoderBuilder<M>, M: MonoX, Rc: RemoteControlModel<Cmd = P::Cmd>>(Receiver<P, NoPin, M, Button<Rc>>)
where
    Button<Rc>: From<P::Cmd>;
impl<P: DecoderBuilder<M>, M: MonoX, Rc: RemoteControlModel<Cmd = P::Cmd>> RRx for BEdge<P, M, Rc>
where
    P::Cmd: Val,
    Button<Rc>: From<P::Cmd>,
{
    fn ev(&mut self, e: bool, dt: u64) -> (R, &'static str) {
        button(self.0.event(M::dur(dt), e), de)
    }
}
struct BPin<P: DecoderBuilder<M>, M: MonoX, Rc: RemoteControlModel<Cmd = P::Cmd>>(Receiver<P, Pin, M, Button<Rc>>, Pin)
where
    Button<Rc>: From<P::Cmd>;
impl<P: DecoderBuilder<M>, M: MonoX, Rc: RemoteControlModel<Cmd = P::Cmd>> RRx for BPin<P, M, Rc>
where
    P::Cmd: Val,
    Button<Rc>: From<P::Cmd>,
{
    fn ev(&mut self, e: bool, dt: u64) -> (R, &'static str) {
        self.1.low.set(e);
        button(self.0.event(M::dur(dt)), |e| pres::<P::Cmd, _>(Err(e)))
    }
}
struct BPoll<P: DecoderBuilder<u32>, Rc: RemoteControlModel<Cmd = P::Cmd>>(PeriodicPoll<P, NoPin, Button<Rc>>)
where
    Button<Rc>: From<P::Cmd>;
impl<P: DecoderBuilder<u32>, Rc: RemoteControlModel<Cmd = P::Cmd>> RRx for BPoll<P, Rc>
where
    P::Cmd: Val,
    Button<Rc>: From<P::Cmd>,
{
    fn ev(&mut self, e: bool, dt: u64) -> (R, &'static str) {
        let mut last = (R::N, "-");
        for k in 0..dt {
            let r = button(self.0.poll(if k + 1 == dt { e } else { !e }), de);
            if r.0 != R::N {
                last = r;
            }
        }
        last
    }
}
fn make_rrx(rn: &str, fe: &str, m: &str, f: u32) -> Box<dyn RRx> {
    with_remote!(rn, P, Rc => match fe {
        "event" => with_mono!(m, f, M => Box::new(BEdge::<P, M, Rc>(Receiver::new(f))) as Box<dyn RRx>),
        "builder" => with_mono!(m, f, M => Box::new(BEdge::<P, M, Rc>(
            infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).remotecontrol(Rc::default()).build())) as Box<dyn RRx>),
        "pin" => with_mono!(m, f, M => {
            let pin = Pin::default();
            Box::new(BPin::<P, M, Rc>(Receiver::with_pin(f, pin.clone()), pin)) as Box<dyn RRx>
        }),
        "poll" => Box::new(BPoll::<P, Rc>(PeriodicPoll::new(f))),
        x => panic!("{x}"),
    })
}
fn buffer_run<P: DecoderBuilder<u32>, Rc: RemoteControlModel<Cmd = P::Cmd>>(f: u32, b: &[u32]) -> Vec<(R, &'static str)>
where
    P::Cmd: Val + AddressCommand,
    Button<Rc>: From<P::Cmd>,
{
    let mut r: BufferInputReceiver<P, u32, Button<Rc>> = BufferInputReceiver::with_frequenzy(f);
    r.iter(b).map(|b: Button<Rc>| (R::C(b.command().val()), name(b.action()))).collect()
}
/// Values of a command with this address and code, other fields arbitrary
fn with(p: &str, a: u32, c: u32, r: &mut Rng) -> [u32; 5] {
    let g = r.below(2) as u32;
    match p {
        "rc5" => [2 + r.below(2) as u32, g, a, c, 0],
        "apple" => [c >> 7, c & 127, r.below(256) as u32, g, 0],
        _ => [a, c, g, 0, 0],
    }
}
fn remote(a: Args) {
    let ms = Arc::new(read_remotes(a.opt("--remotes").unwrap()));
    let t = Arc::new(Tables::load(a.opt("--tables").unwrap()));
    let rec = a.opt("--record").is_some();
    if !rec && a.num("--sweep", 0) > 0 {
        // every address and code; every action
        let ms2 = ms.clone();
        drive("data remote", &a, NR * 257, 8, move |k, r, o| {
            let rn = RS[(k % NR) as usize];
            let m = &ms2[rn];
            let row = (k / NR) as u32;
            if row == 256 {
                let got = with_remote!(rn, P, Rc => { let _ = core::marker::PhantomData::<P>; about::<Rc>() });
                let want = (any_of(&m.p, &[0; 5]).unwrap()[0], m.addr, m.dev.clone());
                if got != want {
                    o.viol(format!("{rn} is for protocol, address and device {got:?} instead of {want:?}"));
                    return;
                }
                if k % NR == 0 {
                    for (n, act) in ACTIONS {
                        let w = ms2.get(*n).map(|m| m.dec[&0].as_str());
                        if w != Some(act.to_str()) {
                            o.viol(format!("action {n} is called {} instead of {w:?}", act.to_str()));
                            return;
                        }
                    }
                }
                for (n, act) in ACTIONS {
                    let got = with_remote!(rn, P, Rc => { let _ = core::marker::PhantomData::<P>; o.call(|| encode_one::<Rc>(*act)) });
                    let e = m.encode(n);
                    let want = (e >= 0).then(|| (m.addr, e as u32, m.dec.get(&(e as u32)).map_or("-", |x| x.as_str())));
                    if got != Ok(want) {
                        o.viol(format!("{rn}: encoding {n} gives {got:?} instead of {want:?}"));
                        return;
                    }
                    o.add("actions", 1);
                }
                return;
            }
            // rows of addresses (SBP: of 256 addresses, and all codes for each)
            let addrs: Vec<u32> = match m.p.as_str() {
                "sbp" => (row * 256..row * 256 + 256).collect(),
                "rc5" if row > 31 => vec![],
                _ => vec![row],
            };
            for ad in addrs {
                let codes = if m.p == "rc5" { 64 } else { 256 };
                for c in 0..codes {
                    let v = if m.p == "apple" { [ad, c, r.below(256) as u32, r.below(2) as u32, 0] } else { with(&m.p, ad, c, r) };
                    let w = if m.p == "apple" && (ad > 31 || c > 127) { "-" } else { m.button(&v) };
                    let got = with_remote!(rn, P, Rc => { let _ = core::marker::PhantomData::<P>; guard(|| decode_one::<Rc>(&v)) });
                    let rep = any_of(&m.p, &v).unwrap()[6] == 1;
                    if got != Ok((w, w, v, rep, rep)) {
                        o.viol(format!("{rn}: command {v:?} decodes to {got:?} instead of {w}"));
                        return;
                    }
                    o.add("commands", 1);
                }
            }
            o.distinct.insert(k);
        });
        return;
    }
    // receivers with a remote attached
    let n = if rec { a.num("--record", 10) } else { a.num("--n", 100) };
    drive("data remote", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let rn = *r.pick(&RS);
        let m = &ms[rn];
        let pr = &t.protos[&m.p];
        let fe = *r.pick(&["event", "event", "builder", "pin", "poll", "buffer"]);
        let f = if fe == "poll" { *r.pick(&HZ[..4]) } else { *r.pick(&t.freqs) };
        let mono = if fe == "poll" || fe == "buffer" { "u32" } else { mono_for(r, f) };
        let win = pr.win[&f].clone();
        let max = if fe == "poll" { pr.max_hi(f) * 3 } else { 1 << 31 };
        // frames of the remote's own address among others
        let mut ev: Vec<Ev> = vec![];
        for _ in 0..1 + r.below(6) {
            let bits = if r.chance(3, 4) {
                let code = if r.chance(4, 5) && !m.dec.is_empty() { *r.pick(&m.dec.keys().copied().collect::<Vec<_>>()) } else { r.below(if m.p == "rc5" { 64 } else { 256 }) as u32 };
                let ad = if r.chance(4, 5) { m.addr } else { r.below(if m.p == "rc5" { 32 } else { 256 }) as u32 };
                // what does not fit the frame is heard cut off
                let lim = if m.p == "nec" || m.p == "rc6" { 255 } else { u32::MAX };
                frame_bits(&m.p, &with(&m.p, ad & lim, code & lim, r))
            } else {
                harness::gen::bits(pr, r)
            };
            let plan = harness::gen::Plan { p: pr, w: &win, f, max, nominal: r.chance(1, 3), alt: true, long: 20 };
            let mut s = harness::gen::Seq { ev: vec![], ops: vec![] };
            plan.clean(bits, r.chance(1, 2), r, &mut s);
            ev.extend(s.ev);
            if m.p == "nec" && r.chance(1, 3) || r.chance(1, 10) {
                let mut s = harness::gen::Seq { ev: vec![], ops: vec![] };
                plan.op(harness::gen::Op::Repeat, r, &mut s);
                ev.extend(s.ev);
            }
        }
        if !fits(&ev, mono) || (fe == "buffer" && !alternates(&ev)) || (fe == "poll" && (!alternates(&ev) || ev.iter().any(|e| e.dt == 0))) {
            return;
        }
        o.seen(rn, &ev);
        let what = || format!("{rn} attached to {fe}, {f} Hz, clock {mono}: {}", show_ev(&ev));
        // a plain receiver of the same kind, event by event
        let plain: Vec<R> = match o.call(|| {
            let mut rx = make(&m.p, "event", mono, f);
            ev.iter().map(|e| rx.ev(e.e, e.dt)).collect()
        }) {
            Ok(x) => x,
            Err(e) => return o.viol(format!("panic {e}: {}", what())),
        };
        let got: Vec<(R, &str)> = match o.call(|| {
            if fe == "buffer" {
                let b: Vec<u32> = ev.iter().map(|e| e.dt as u32).collect();
                with_remote!(rn, P, Rc => buffer_run::<P, Rc>(f, &b))
            } else {
                let mut rx = make_rrx(rn, fe, mono, f);
                ev.iter().map(|e| rx.ev(e.e, e.dt)).collect()
            }
        }) {
            Ok(x) => x,
            Err(e) => return o.viol(format!("panic {e}: {}", what())),
        };
        let plain: Vec<R> = if fe == "buffer" { plain.into_iter().filter(|r| r.is_cmd()).collect() } else { plain };
        if got.len() != plain.len() {
            return o.viol(format!("{} outcomes instead of {}: {}", got.len(), plain.len(), what()));
        }
        for (g, p) in got.iter().zip(&plain) {
            let w = match p {
                R::C(v) => m.button(v),
                _ => "-",
            };
            if g.0 != *p || g.1 != w {
                return o.viol(format!("reported {} {} instead of {} {w}: {}", g.0.show(), g.1, p.show(), what()));
            }
            if let R::C(v) = g.0 {
                o.add("buttons", 1);
                o.add("buttons_with_action", (w != "-") as u64);
                if rec {
                    let enc = ACTIONS.iter().find(|x| x.0 == g.1).map_or(-2i64, |x| {
                        with_remote!(rn, P, Rc => { let _ = core::marker::PhantomData::<P>; encode_one::<Rc>(x.1).map_or(-1, |y| y.1 as i64) })
                    });
                    println!("REC {{\"r\":\"{rn}\",\"v\":{:?},\"act\":\"{}\",\"enc\":{enc}}}", &v[..nv(&t, &m.p)], g.1);
                }
            }
        }
        if k == 2 {
            o.sample = Some(what());
        }
    });
}
/// The frame of a command, bit 0 sent first
fn frame_bits(p: &str, v: &[u32; 5]) -> u64 {
    let rev = |x: u32, n: u32| (0..n).fold(0u64, |a, i| a | (((x >> (n - 1 - i)) & 1) as u64) << i);
    let (a, c) = (v[0] as u64, v[1] as u64);
    match p {
        "nec" => a | (!a & 255) << 8 | c << 16 | (!c & 255) << 24,
        "samsung" => a | a << 8 | c << 16 | (!c & 255) << 24,
        "sbp" => a | c << 20 | (!c & 255) << 28,
        "rc6" => rev(v[0], 8) | rev(v[1], 8) << 8,
        "rc5" => rev(v[0], 2) | rev(v[1], 1) << 2 | rev(v[2], 5) << 3 | rev(v[3], 6) << 8,
        "apple" => {
            let b = a | 0x43f << 5 | c << 17 | (v[2] as u64) << 24;
            if b.count_ones() % 2 == 1 { b } else { b | 1 << 16 }
        }
        x => panic!("{x}"),
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "span" => span(a),
        "cmd" => cmd(a),
        "create" => create(a),
        "remote" => remote(a),
        x => panic!("{x}"),
    }
}
