//! Running many numbered cases in parallel.
use crate::gen::{Op, Plan, Seq};
use crate::model::{Proto, Tables};
use crate::recv::{mono_max, mono_ok};
use crate::util::*;
use crate::Ev;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const MONOS: [&str; 6] = ["u32", "u64", "f32", "f64", "f32p", "f64p"];

/// What a worker has to say
#[derive(Default)]
pub struct Out {
    pub stats: HashMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub sample: Option<String>,
    pub viols: u64,
    pub slot: u64,
    pub case: u64,
}
impl Out {
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.stats.entry(k).or_insert(0) += v;
    }
    pub fn viol(&mut self, s: String) {
        self.viols += 1;
        println!("VIOL {s}");
    }
    pub fn seen(&mut self, tag: &str, ev: &[Ev]) {
        let mut h: Vec<u64> = ev.iter().map(|e| e.dt.wrapping_mul(2).wrapping_add(e.e as u64)).collect();
        h.extend(tag.bytes().map(|b| b as u64));
        self.distinct.insert(hash(&h));
    }
    /// Call the code under test; Err is the panic message
    pub fn call<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        beat(self.slot, self.case);
        let r = guard(f);
        idle(self.slot);
        r
    }
}

/// Runs cases 0..n in nt threads
pub fn drive(what: &'static str, a: &Args, n: u64, nt: u64, f: impl Fn(u64, &mut Rng, &mut Out) + Send + Sync + 'static) {
    let secs = a.num("--secs", 3600);
    let seed = a.num("--seed", 1);
    watchdog(120, what);
    let start = std::time::Instant::now();
    let viols = Arc::new(AtomicU64::new(0));
    let res = threads(nt, move |ti| {
        let mut o = Out { slot: ti, ..Default::default() };
        let mut k = ti;
        while k < n && viols.load(Ordering::Relaxed) < 5 {
            if start.elapsed().as_secs() >= secs {
                break;
            }
            let mut r = Rng::new(seed.wrapping_mul(0x1_0000_01).wrapping_add(k + 1) ^ hash(&what.bytes().map(|b| b as u64).collect::<Vec<_>>()));
            o.case = k + 1;
            f(k, &mut r, &mut o);
            o.add("cases", 1);
            viols.fetch_add(o.viols, Ordering::Relaxed);
            o.viols = 0;
            k += nt;
        }
        o
    });
    let mut distinct = HashSet::new();
    let mut sums: HashMap<&str, u64> = HashMap::new();
    for o in res {
        distinct.extend(o.distinct);
        for (k, v) in o.stats {
            *sums.entry(k).or_insert(0) += v;
        }
        if let Some(s) = o.sample {
            println!("SAMPLE {s}");
        }
    }
    for (k, v) in sums {
        stat(k, v);
    }
    stat("distinct", distinct.len() as u64);
}

pub fn mono_for<'a>(r: &mut Rng, f: u32) -> &'a str {
    loop {
        let m = *r.pick(&MONOS);
        if mono_ok(m, f) {
            return m;
        }
    }
}

/// A line history: transmissions, whole and broken, and noise
pub fn history(pr: &Proto, f: u32, max: u64, alt: bool, maxops: u64, r: &mut Rng) -> Vec<Ev> {
    let win = pr.win[&f].clone();
    let plan = Plan { p: pr, w: &win, f, max, nominal: r.chance(1, 6), alt, long: 300 };
    let mut s = Seq { ev: vec![], ops: vec![] };
    let ops = [Op::Clean, Op::Clean, Op::Clean, Op::Corrupt, Op::Abort, Op::Repeat, Op::Splice, Op::Noise];
    for _ in 0..1 + r.below(maxops) {
        let op = if r.chance(1, 30) { Op::Run } else if r.chance(1, 12) { Op::Walk } else { *r.pick(&ops) };
        plan.op(op, r, &mut s);
        if !alt && r.chance(1, 5) && s.ev.len() > 2 {
            let k = r.below(s.ev.len() as u64) as usize;
            s.ev.remove(k);
        }
    }
    s.ev
}

pub fn alternates(ev: &[Ev]) -> bool {
    ev.iter().enumerate().all(|(i, e)| e.e == (i % 2 == 0))
}

pub fn show_ev(ev: &[Ev]) -> String {
    // of the longest only the end is shown (the seed gives the rest)
    let from = if ev.len() > 20_000 { ev.len() - 400 } else { 0 };
    let t = ev[from..].iter().map(|e| format!("{}:{}", e.e as u8, e.dt)).collect::<Vec<_>>().join(" ");
    if from > 0 {
        format!("({from} edges) ... {t}")
    } else {
        t
    }
}

pub fn total(ev: &[Ev]) -> u128 {
    ev.iter().map(|e| e.dt as u128).sum()
}
pub fn fits(ev: &[Ev], mono: &str) -> bool {
    total(ev) <= mono_max(mono) as u128 / 2
}

/// TLC behaviours: lines "p f e:dt:..." (what follows the second colon is left to the caller)
pub fn read_cases(path: &str) -> Vec<(String, u32, Vec<(Ev, String)>)> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .map(|l| {
            let t: Vec<&str> = l.split(' ').collect();
            let ev = t[2..]
                .iter()
                .map(|x| {
                    let mut it = x.splitn(3, ':');
                    let e = it.next().unwrap() == "1";
                    let dt = it.next().unwrap().parse().unwrap();
                    (Ev { e, dt }, it.next().unwrap_or("").to_string())
                })
                .collect();
            (t[0].to_string(), t[1].parse().unwrap(), ev)
        })
        .collect()
}

pub fn nv(t: &Tables, p: &str) -> usize {
    t.protos[p].layout.len() + 1
}
