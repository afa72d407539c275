//! Multi receivers against stand alone receivers.
//!
//!   multi run [--cases FILE] [--record N] [--n N] [--faults 1]
#[path = "../bin_multi_base.rs"]
#[macro_use]
mod base;
#[path = "../bin_multi_table.rs"]
mod table;

use base::{Any, MultiX};
use harness::drive::*;
use harness::gen::any_len;
use harness::model::Tables;
use harness::recv::*;
use harness::util::*;
use harness::{Ev, R};
use table::{make_multi, TUPLES};

/// AnyOf in IrCommands.tla
/// The clocks that multi receivers are compiled for
const MULTI_MONOS: [&str; 4] = ["u32", "u64", "f32", "f64"];

fn any_of(p: &str, r: R) -> Option<Any> {
    let R::C(v) = r else { return None };
    Some(match p {
        "nec" => [1, 0, 0, 0, v[0], v[1], v[2]],
        "samsung" => [3, 0, 0, 0, v[0], v[1], v[2]],
        "apple" => [4, 0, 0, 0, 0, 128 * v[0] + v[1], v[3]],
        "rc5" => [5, 0, 0, 0, v[2], v[3], v[1]],
        "rc6" => [6, 0, 0, 0, v[0], v[1], v[2]],
        "sbp" => [7, 0, 0, 0, v[0], v[1], 0],
        "denon" => [8, v[0], v[1], v[2], 0, 0, 0],
        x => panic!("{x}"),
    })
}
/// The raw bits are part of a Denon command only
fn same(a: Option<Any>, b: Option<Any>) -> bool {
    match (a, b) {
        (Some(mut x), Some(y)) => {
            if x[0] != 8 {
                x[1..4].copy_from_slice(&y[1..4]);
            }
            x == y
        }
        (None, None) => true,
        _ => false,
    }
}
fn show(x: &[Option<Any>]) -> String {
    x.iter()
        .map(|y| match y {
            None => "-".to_string(),
            Some(v) => v.map(|z| z.to_string()).join("."),
        })
        .collect::<Vec<_>>()
        .join("|")
}
fn parse(s: &str) -> Vec<Option<Any>> {
    s.split('|')
        .map(|x| {
            if x == "-" {
                return None;
            }
            let mut a = [0; 7];
            for (i, y) in x.split('.').enumerate() {
                a[i] = y.parse().unwrap();
            }
            Some(a)
        })
        .collect()
}
fn js(v: &[Option<Any>]) -> String {
    let one = |x: &Option<Any>| match x {
        None => "[]".to_string(),
        Some(a) => {
            let mut a = *a;
            if a[0] != 8 {
                a[1..4].fill(0);
            }
            format!("[{}]", a.map(|z| z.to_string()).join(","))
        }
    };
    format!("[{}]", v.iter().map(one).collect::<Vec<_>>().join(","))
}

/// slots, iterator, alone
type Step = (Vec<Option<Any>>, Vec<Any>, Vec<R>);

/// Runs the line through a multi receiver (slots), another one (iterator) and
/// the stand alone receivers; fault: inject failing reads before some events
fn run(k: usize, mono: &str, f: u32, pin: bool, ev: &[Ev], faults: &[(usize, u32)], o: &Out) -> Result<Vec<Step>, String> {
    let ps = TUPLES[k];
    o.call(|| {
        let mut a: Box<dyn MultiX> = make_multi(k, mono, f, pin);
        let mut b: Box<dyn MultiX> = make_multi(k, mono, f, pin);
        let mut alone: Vec<Box<dyn Rx>> = ps.iter().map(|p| make(p, "edge", mono, f)).collect();
        let mut out = vec![];
        for (i, e) in ev.iter().enumerate() {
            if pin {
                for (_, code) in faults.iter().filter(|x| x.0 == i) {
                    for (n, x) in [&mut a, &mut b].into_iter().enumerate() {
                        x.pin().unwrap().fail.set(*code);
                        let got = if n == 0 { x.slots(e.e, e.dt).len() } else { x.iter(e.e, e.dt).len() };
                        x.pin().unwrap().fail.set(0);
                        if got != 0 || x.err() != *code {
                            panic!("failing read {code} at event {i} gave {got} slots and error {}", x.err());
                        }
                    }
                }
            }
            let s = a.slots(e.e, e.dt);
            let it = b.iter(e.e, e.dt);
            let al = alone.iter_mut().map(|r| r.ev(e.e, e.dt)).collect();
            out.push((s, it, al));
        }
        out
    })
}

fn judge(k: usize, mono: &str, f: u32, pin: bool, ev: &[Ev], said: Option<&[Vec<Option<Any>>]>, faults: &[(usize, u32)], o: &mut Out) -> Option<Vec<Step>> {
    let ps = TUPLES[k];
    o.add("runs", 1);
    let steps = match run(k, mono, f, pin, ev, faults, o) {
        Ok(s) => s,
        Err(m) => {
            // does a stand alone receiver panic, too?  Then it is not about the multi receiver
            let alone = ps.iter().all(|p| {
                o.call(|| {
                    let mut r = make(p, "edge", mono, f);
                    for e in ev {
                        r.ev(e.e, e.dt);
                    }
                })
                .is_ok()
            });
            if alone {
                o.viol(format!("{ps:?} at {f} Hz, {mono}, pin {pin}: {m}; faults {faults:?}; events {}", show_ev(ev)));
            }
            return None;
        }
    };
    for (i, (s, it, al)) in steps.iter().enumerate() {
        let want: Vec<Option<Any>> = ps.iter().zip(al).map(|(p, r)| any_of(p, *r)).collect();
        o.add("commands", want.iter().flatten().count() as u64);
        o.add("several_at_once", (want.iter().flatten().count() > 1) as u64);
        let ok = s.len() == want.len() && s.iter().zip(&want).all(|(a, b)| same(*a, *b));
        let list: Vec<Option<Any>> = want.iter().filter(|x| x.is_some()).copied().collect();
        let iok = it.len() == list.len() && it.iter().zip(&list).all(|(a, b)| same(Some(*a), *b));
        // the behaviour of the specification
        let sok = match said {
            Some(t) => s.len() == t[i].len() && s.iter().zip(&t[i]).all(|(a, b)| same(*a, *b)),
            None => true,
        };
        if ok && iok && sok {
            continue;
        }
        let it2: Vec<Option<Any>> = it.iter().map(|x| Some(*x)).collect();
        o.viol(format!(
            "{ps:?} at {f} Hz, {mono}, pin {pin}: slots {} iterator {} but stand alone receivers {}{} at event {i} of {} (faults {faults:?})",
            show(s),
            show(&it2),
            show(&want),
            said.map(|t| format!(", specification {}", show(&t[i]))).unwrap_or_default(),
            show_ev(&ev[..=i])
        ));
        return None;
    }
    Some(steps)
}

fn line(t: &Tables, k: usize, f: u32, r: &mut Rng) -> Vec<Ev> {
    let ps = TUPLES[k];
    let top = ps.iter().map(|p| t.protos[*p].max_hi(f)).max().unwrap();
    let mut ev: Vec<Ev> = vec![];
    for _ in 0..1 + r.below(5) {
        let p = *r.pick(ps);
        let pr = &t.protos[p];
        let max = if r.chance(1, 8) { u32::MAX as u64 } else { top * 10 };
        let alt = r.chance(4, 5);
        let mut h = history(pr, f, max, alt, 2, r);
        if r.chance(1, 2) && !h.is_empty() {
            // starts after a gap for everybody
            h[0].dt = top + 1 + r.below(top);
        }
        if r.chance(1, 8) {
            let w = pr.win[&f].clone();
            let at = r.below(h.len() as u64 + 1) as usize;
            h.insert(at, Ev { e: r.chance(1, 2), dt: any_len(&w, max, r) });
        }
        ev.extend(h);
    }
    ev
}

fn main() {
    silence_panics();
    let a = Args::get();
    let t = Tables::load(a.opt("--tables").unwrap());
    let faulty = a.num("--faults", 0) > 0;
    if let Some(path) = a.opt("--cases") {
        let lines: Vec<String> = std::fs::read_to_string(path).unwrap().lines().map(|s| s.to_string()).collect();
        let n = lines.len() as u64;
        drive("multi replay", &a, n, 8, move |i, r, o| {
            let l: Vec<&str> = lines[i as usize].split(' ').collect();
            let ps: Vec<&str> = l[0].split(',').collect();
            let f: u32 = l[1].parse().unwrap();
            let k = TUPLES.iter().position(|x| *x == ps.as_slice()).expect("tuple");
            let mut ev = vec![];
            let mut said = vec![];
            for x in &l[2..] {
                let y: Vec<&str> = x.splitn(3, ':').collect();
                ev.push(Ev { e: y[0] == "1", dt: y[1].parse().unwrap() });
                said.push(parse(y[2]));
            }
            o.seen(l[0], &ev);
            for mono in MULTI_MONOS {
                if mono.starts_with('f') && f != 1_000_000 {
                    continue;
                }
                for pin in [false, true] {
                    let mut fl = vec![];
                    if pin && faulty {
                        for at in 0..ev.len() {
                            if r.chance(1, 4) {
                                fl.push((at, 1 + r.below(9) as u32));
                            }
                        }
                    }
                    judge(k, mono, f, pin, &ev, Some(&said), &fl, o);
                }
            }
            o.add("tlc_traces", 1);
        });
        return;
    }
    let rec = a.opt("--record").is_some();
    let n = if rec { a.num("--record", 100) } else { a.num("--n", 1000) };
    drive("multi", &a, n, if rec { 1 } else { 8 }, move |i, r, o| {
        let k = if i < TUPLES.len() as u64 * 8 { (i / 8) as usize % TUPLES.len() } else { r.below(TUPLES.len() as u64) as usize };
        let mono = *r.pick(&MULTI_MONOS);
        let f = if mono.starts_with('f') { 1_000_000 } else { *r.pick(&t.freqs) };
        let pin = r.chance(1, 2);
        let ev = line(&t, k, f, r);
        let mut fl = vec![];
        if pin && faulty {
            for _ in 0..1 + r.below(6) {
                fl.push((r.below(ev.len() as u64) as usize, 1 + r.below(1000) as u32));
            }
        }
        o.seen(&format!("{k}{f}"), &ev);
        o.add("faults", fl.len() as u64);
        let steps = judge(k, mono, f, pin, &ev, None, &fl, o);
        if let (true, Some(st)) = (rec, steps) {
            let ps = TUPLES[k];
            let evs: Vec<String> = st
                .iter()
                .map(|(s, it, al)| {
                    let it2: Vec<Option<Any>> = it.iter().map(|x| Some(*x)).collect();
                    let al: Vec<String> = ps.iter().zip(al).map(|(p, r)| r.json(nv(&t, p))).collect();
                    format!("[{},{},[{}]]", js(s), js(&it2), al.join(","))
                })
                .collect();
            let names: Vec<String> = ps.iter().map(|p| format!("\"{p}\"")).collect();
            println!("REC {{\"protos\":[{}],\"f\":{f},\"mono\":\"{mono}\",\"pin\":{},\"ev\":[{}]}}", names.join(","), pin as u8, evs.join(","));
        }
        if i == 3 {
            o.sample = Some(format!("{:?} {f} {mono} pin {pin} {}", TUPLES[k], show_ev(&ev[..ev.len().min(60)])));
        }
    });
}
