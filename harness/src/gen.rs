//! Generator of edge sequences.  It knows what frames look like in order to
//! reach deep states; what a receiver has to make of them is judged elsewhere.
use crate::model::{DecSt, Proto, SaveOp, Win};
use crate::util::Rng;
use crate::{is_nec, Ev};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Clean,
    Corrupt,
    Abort,
    Repeat,
    Noise,
    /// frames run together, pulses inserted, lost, repeated or swapped
    Splice,
    /// the same thing many times: repeat codes, frames, pulses of one length
    Run,
    /// a walk on the specification's transition graph
    Walk,
}

pub struct Seq {
    pub ev: Vec<Ev>,
    /// (first event, kind)
    pub ops: Vec<(usize, Op)>,
}

/// One edge of a frame: direction and class (0 for the end of a mark)
#[derive(Clone, Copy)]
pub struct Slot {
    pub e: bool,
    pub c: usize,
    pub us: u32,
}

pub fn halves(bits: u64, n: u32, one_first: bool, out: &mut Vec<bool>) {
    for i in 0..n {
        let b = (bits >> i) & 1 == 1;
        let first = b == one_first;
        out.push(first);
        out.push(!first);
    }
}

/// Slots after the first rising edge.  `bits`: bit i is the i-th on the air.
pub fn frame(p: &str, bits: u64, tog: bool) -> Vec<Slot> {
    let mark = |us| Slot { e: false, c: 0, us };
    let dist = |c| Slot { e: true, c, us: 0 };
    let mut v = vec![];
    match p {
        "nec" | "nec16" | "apple" | "raw" | "samsung" => {
            v.push(mark(if p == "samsung" { 4500 } else { 9000 }));
            v.push(dist(1));
            for i in 0..32 {
                v.push(mark(560));
                v.push(dist(if (bits >> i) & 1 == 1 { 4 } else { 3 }));
            }
            v.push(mark(560));
        }
        "sbp" => {
            v.push(mark(4500));
            v.push(dist(1));
            for i in 0..36 {
                if i == 16 {
                    v.push(mark(500));
                    v.push(dist(2));
                }
                v.push(mark(500));
                v.push(dist(if (bits >> i) & 1 == 1 { 4 } else { 3 }));
            }
            v.push(mark(500));
        }
        "denon" => {
            v.push(mark(3400));
            v.push(dist(1));
            for i in 0..48 {
                v.push(mark(480));
                v.push(dist(if (bits >> i) & 1 == 1 { 3 } else { 2 }));
            }
            v.push(mark(480));
        }
        _ => {
            let mut l = vec![];
            if p == "rc5" {
                halves(bits, 14, false, &mut l);
            } else {
                l.extend([true, true, true, true, true, true, false, false]);
                halves(0b0001, 4, true, &mut l);
                l.extend([tog, tog, !tog, !tog]);
                halves(bits, 16, true, &mut l);
            }
            l.push(false);
            let mut prev = false;
            let mut last = None;
            for (i, &x) in l.iter().enumerate() {
                if x != prev {
                    if let Some(j) = last {
                        v.push(Slot { e: x, c: i - j, us: 0 });
                    }
                    last = Some(i);
                    prev = x;
                }
            }
        }
    }
    v
}

pub fn repeat(p: &str) -> Vec<Slot> {
    vec![
        Slot { e: false, c: 0, us: if p == "samsung" { 4500 } else { 9000 } },
        Slot { e: true, c: 2, us: 0 },
        Slot { e: false, c: 0, us: 560 },
    ]
}

/// Frame contents, biased towards structured ones
pub fn bits(p: &Proto, r: &mut Rng) -> u64 {
    let n = p.nbits;
    let mask = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let mut b = match r.below(12) {
        0 => 0,
        1 => mask,
        2 => 1 << r.below(n as u64),
        3 => mask & !(1 << r.below(n as u64)),
        4 => 0x5555_5555_5555_5555 & mask,
        5 => (1u64 << r.below(n as u64)) | (1 << r.below(n as u64)),
        _ => r.next() & mask,
    };
    if r.chance(2, 3) {
        for &(i, j, inv) in &p.pairs {
            let a = (b >> (i - 1)) & 0xFF;
            let x = if inv { a ^ 0xFF } else { a };
            b = (b & !(0xFF << (j - 1))) | (x << (j - 1));
        }
        if r.chance(1, 6) && !p.pairs.is_empty() {
            // almost valid
            b ^= 1 << r.below(n as u64);
        }
    }
    if p.name == "apple" && r.chance(7, 8) {
        b = (b & !(0x7FF << 5)) | (0x43F << 5);
        if b.count_ones() % 2 == 0 {
            b ^= 1 << 16;
        }
        if r.chance(1, 8) {
            b ^= 1 << r.below(32);
        }
    }
    if p.name == "rc5" {
        b |= 1;
    }
    b
}

/// A length that is of class c and no earlier one
pub fn good(w: &[Win], c: usize, r: &mut Rng) -> u64 {
    let x = &w[c - 1];
    match r.below(5) {
        0 => x.glo,
        1 => x.hi,
        2 => x.base.max(x.glo),
        _ => r.range(x.glo, x.hi),
    }
}

fn classify(w: &[Win], d: u64) -> usize {
    w.iter().position(|x| x.lo <= d && d <= x.hi).map(|i| i + 1).unwrap_or(0)
}

pub fn gap(w: &[Win], max: u64, r: &mut Rng) -> u64 {
    let mh = w.iter().map(|x| x.hi).max().unwrap();
    match r.below(8) {
        0 => mh + 1,
        1 => max.min(u32::MAX as u64).saturating_sub(r.below(3)).max(mh + 1),
        2 => max.saturating_sub(r.below(3)).max(mh + 1),
        3 => (max / 2 + r.below(3)).max(mh + 1),
        4 => r.range(mh + 1, max.min(u32::MAX as u64)),
        _ => r.range(mh + 1, mh * 30 + 2),
    }
}

/// Anything
pub fn any_len(w: &[Win], max: u64, r: &mut Rng) -> u64 {
    let mh = w.iter().map(|x| x.hi).max().unwrap();
    match r.below(14) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max.saturating_sub(r.below(1000)),
        4 => r.below(max),
        5 => {
            // wraps onto a window if truncated to 32 bits
            let x = &w[r.below(w.len() as u64) as usize];
            if max > u32::MAX as u64 {
                (r.range(1, 3) << 32) + x.base
            } else {
                max.saturating_sub(x.base)
            }
        }
        6..=8 => {
            let x = &w[r.below(w.len() as u64) as usize];
            let v = [x.lo.saturating_sub(1), x.lo, x.hi, x.hi + 1, x.base];
            *r.pick(&v)
        }
        _ => r.below(mh + mh / 4 + 2),
    }
}

/// A length that is in no window, or in that of a class other than `c`
pub fn wrong_len(w: &[Win], c: usize, max: u64, r: &mut Rng) -> u64 {
    loop {
        let d = any_len(w, max, r);
        if classify(w, d) != c {
            return d;
        }
    }
}

pub struct Plan<'a> {
    pub p: &'a Proto,
    pub w: &'a [Win],
    pub f: u32,
    pub max: u64,
    pub nominal: bool,
    /// edges strictly alternate
    pub alt: bool,
    /// the longest run
    pub long: u64,
}

impl Plan<'_> {
    /// Emit slots, splitting distances between mark and space
    fn slots(&self, s: &[Slot], bad: Option<usize>, r: &mut Rng, out: &mut Vec<Ev>) {
        let mut m = 0u64;
        for (k, x) in s.iter().enumerate() {
            if x.c == 0 {
                // end of a mark: the next slot says how long the pulse is
                let next = s.get(k + 1);
                let nom = x.us as u64 * self.f as u64 / 1_000_000;
                let lim = next.map(|n| self.w[n.c - 1].glo).unwrap_or(nom);
                m = if self.nominal {
                    nom.min(lim)
                } else {
                    match r.below(6) {
                        0 => r.range(0, lim),
                        1 => (nom * 4 / 5).min(lim),
                        2 => (nom * 5 / 4).min(lim),
                        _ => nom.min(lim),
                    }
                };
                out.push(Ev { e: false, dt: m });
            } else {
                let isbad = bad == Some(k);
                let d = if isbad {
                    wrong_len(self.w, x.c, self.max, r)
                } else if self.nominal {
                    self.w[x.c - 1].base
                } else {
                    good(self.w, x.c, r)
                };
                out.push(Ev { e: x.e, dt: d.saturating_sub(m) });
                m = 0;
            }
        }
    }

    /// A frame with this content
    pub fn clean(&self, bits: u64, tog: bool, r: &mut Rng, out: &mut Seq) {
        out.ops.push((out.ev.len(), Op::Clean));
        let first = out.ev.is_empty() && r.chance(1, 3);
        out.ev.push(Ev { e: true, dt: if first { 0 } else { gap(self.w, self.max, r) } });
        let s = frame(self.p.name.as_str(), bits, tog);
        self.slots(&s, None, r, &mut out.ev);
    }

    fn slots_of_frame(&self, r: &mut Rng, out: &mut Seq) {
        let b = bits(self.p, r);
        self.clean(b, r.chance(1, 2), r, out);
    }

    /// A walk of n edges on the transition graph of the specification, seldom into errors.
    /// One that repeats itself goes round a loop of the graph if it finds one.
    fn walk(&self, n: u64, period: Option<u64>, r: &mut Rng, out: &mut Seq) {
        let p = self.p;
        let class = |e: bool, d: u64, save: u64| {
            if p.biphase { classify(self.w, d) } else if e { classify(self.w, d.saturating_add(save)) } else { 0 }
        };
        let (mut st, mut save) = (p.init, 0u64);
        let apply = |st: &mut u16, save: &mut u64, e: bool, d: u64| {
            let t = p.tr[*st as usize][e as usize][class(e, d, *save)].unwrap();
            for (t, d) in [(Some(t), d), (p.reset[t.to as usize], 0)] {
                let Some(t) = t else { continue };
                match t.save {
                    SaveOp::Keep => {}
                    SaveOp::Zero => *save = 0,
                    SaveOp::Dur => *save = d,
                }
                *st = t.to;
                if matches!(p.states[*st as usize].kind, DecSt::Idle | DecSt::Receiving) {
                    break;
                }
            }
        };
        // (the last ones are enough to know where the receiver is)
        for x in &out.ev[out.ev.len().saturating_sub(300)..] {
            apply(&mut st, &mut save, x.e, x.dt);
        }
        let mut e = out.ev.last().map(|x| !x.e).unwrap_or(true);
        let from = out.ev.len();
        for k in 0..n {
            if let Some(q) = period {
                // some way in, then the last q (even) edges over and over
                let q = (q as usize) & !1;
                if k >= 30 && out.ev.len() - from > q + 8 {
                    let x = out.ev[out.ev.len() - q];
                    out.ev.push(x);
                    e = !x.e;
                    continue;
                }
            }
            let ok: Vec<usize> = (0..=self.w.len())
                .filter(|c| {
                    p.tr[st as usize][e as usize][*c].is_some_and(|t| p.states[t.to as usize].kind == DecSt::Receiving)
                })
                .collect();
            let c = if ok.is_empty() || r.chance(1, 40) { r.below(self.w.len() as u64 + 1) as usize } else { *r.pick(&ok) };
            let d = if !p.biphase && !e {
                // the end of a mark
                let m = self.w.iter().map(|w| w.glo).min().unwrap();
                if r.chance(1, 20) { any_len(self.w, self.max, r) } else { r.range(m / 4, m * 3 / 4) }
            } else if c == 0 {
                wrong_len(self.w, 1 + r.below(self.w.len() as u64) as usize, self.max, r)
            } else if self.nominal {
                self.w[c - 1].base.saturating_sub(save)
            } else {
                good(self.w, c, r).saturating_sub(if p.biphase { 0 } else { save })
            };
            out.ev.push(Ev { e, dt: d });
            apply(&mut st, &mut save, e, d);
            e = !e;
        }
        if !e {
            out.ev.push(Ev { e, dt: any_len(self.w, self.max, r) });
        }
    }

    pub fn op(&self, op: Op, r: &mut Rng, out: &mut Seq) {
        out.ops.push((out.ev.len(), op));
        let p = self.p.name.as_str();
        let edge_gap = |out: &mut Seq, r: &mut Rng| {
            let first = out.ev.is_empty() && r.chance(1, 3);
            out.ev.push(Ev { e: true, dt: if first { 0 } else { gap(self.w, self.max, r) } });
        };
        match op {
            Op::Clean => {
                edge_gap(out, r);
                let s = frame(p, bits(self.p, r), r.chance(1, 2));
                self.slots(&s, None, r, &mut out.ev);
            }
            Op::Corrupt => {
                edge_gap(out, r);
                let s = frame(p, bits(self.p, r), r.chance(1, 2));
                let cand: Vec<usize> =
                    s.iter().enumerate().filter(|(_, x)| x.c != 0).map(|(i, _)| i).collect();
                let k = match r.below(6) {
                    0 => cand[0],
                    1 => *cand.last().unwrap(),
                    _ => *r.pick(&cand),
                };
                self.slots(&s, Some(k), r, &mut out.ev);
            }
            Op::Abort => {
                edge_gap(out, r);
                let s = frame(p, bits(self.p, r), r.chance(1, 2));
                // stop after a falling edge (idle line); rarely anywhere
                let n = loop {
                    let n = match r.below(5) {
                        0 => s.len() - 1 - r.below(3) as usize,
                        1 => 1 + r.below(3) as usize,
                        _ => 1 + r.below(s.len() as u64 - 1) as usize,
                    };
                    if !s[n - 1].e || (!self.alt && r.chance(1, 8)) {
                        break n;
                    }
                };
                self.slots(&s[..n], None, r, &mut out.ev);
            }
            Op::Repeat => {
                if is_nec(p) {
                    edge_gap(out, r);
                    self.slots(&repeat(p), None, r, &mut out.ev);
                } else {
                    // a bare header
                    edge_gap(out, r);
                    let s = frame(p, bits(self.p, r), false);
                    self.slots(&s[..1], None, r, &mut out.ev);
                }
            }
            Op::Splice => {
                edge_gap(out, r);
                let tog = r.chance(1, 2);
                let a = frame(p, bits(self.p, r), tog);
                // a frame is pairs of (falling, rising) and a last falling edge
                let pairs = a.len() / 2;
                match r.below(8) {
                    0..=3 => {
                        // broken off, the next one follows at once
                        let k = match r.below(4) {
                            0 => r.below(3.min(pairs as u64)) as usize,
                            1 => pairs - 1 - r.below(2) as usize,
                            _ => r.below(pairs as u64) as usize,
                        };
                        self.slots(&a[..2 * k + 1], None, r, &mut out.ev);
                        let d = if r.chance(2, 3) {
                            let c = 1 + r.below(self.w.len() as u64) as usize;
                            good(self.w, c, r)
                        } else {
                            any_len(self.w, self.max, r)
                        };
                        let m = if a[2 * k].c == 0 { out.ev.last().unwrap().dt } else { 0 };
                        out.ev.push(Ev { e: true, dt: d.saturating_sub(m) });
                        let b = if is_nec(p) && r.chance(1, 4) { repeat(p) } else { frame(p, bits(self.p, r), tog) };
                        let from = if r.chance(3, 4) { 0 } else { 2 * r.below(b.len() as u64 / 2) as usize };
                        self.slots(&b[from..], None, r, &mut out.ev);
                    }
                    z => {
                        let mut a = a;
                        for _ in 0..1 + r.below(2) {
                            let k = 2 * r.below(a.len() as u64 / 2) as usize;
                            let j = 2 * r.below(a.len() as u64 / 2) as usize;
                            match z {
                                4 if a.len() > 3 => {
                                    a.drain(k..k + 2);
                                }
                                5 => {
                                    let x = [a[j], a[j + 1]];
                                    a.splice(k..k, x);
                                }
                                6 => {
                                    a.swap(k, j);
                                    a.swap(k + 1, j + 1);
                                }
                                _ => {
                                    let c = 1 + r.below(self.w.len() as u64) as usize;
                                    let mut x = [a[j], a[j + 1]];
                                    x[1].c = c;
                                    a.splice(k..k, x);
                                }
                            }
                        }
                        self.slots(&a, None, r, &mut out.ev);
                    }
                }
            }
            Op::Run => {
                let n = match r.below(48) {
                    0 => self.long,
                    1..=32 if self.long > 1000 => self.long - r.below(3),
                    1..=4 => r.range(100, 300),
                    5..=12 => r.range(20, 100),
                    _ => r.range(2, 20),
                }
                .min(self.long);
                match r.below(6) {
                    4 => self.walk(n, Some(2 + r.below(4)), r, out),
                    // a frame that does not end
                    5 => {
                        edge_gap(out, r);
                        let b = match r.below(4) {
                            0 => 0,
                            1 => u64::MAX >> (64 - self.p.nbits),
                            _ => bits(self.p, r),
                        };
                        let mut a = frame(p, if p == "rc5" { b | 1 } else { b }, r.chance(1, 2));
                        let len = a.len() as u64;
                        let same = r.chance(1, 2).then(|| len - 2 - 2 * r.below(4));
                        for _ in 0..n {
                            let k = same.unwrap_or_else(|| len - 2 - 2 * r.below(len / 4)) as usize;
                            a.extend([a[k], a[k + 1]]);
                        }
                        self.slots(&a, None, r, &mut out.ev);
                    }
                    0 if is_nec(p) => {
                        self.slots_of_frame(r, out);
                        for _ in 0..n {
                            edge_gap(out, r);
                            self.slots(&repeat(p), None, r, &mut out.ev);
                        }
                    }
                    1 => {
                        for _ in 0..2 + n / 16 {
                            self.slots_of_frame(r, out);
                        }
                    }
                    _ => {
                        // some way into a frame, or out of one
                        if r.chance(4, 5) {
                            edge_gap(out, r);
                            let a = frame(p, bits(self.p, r), r.chance(1, 2));
                            let k = r.below(a.len() as u64 / 2) as usize;
                            self.slots(&a[..2 * k + 1 + self.p.biphase as usize * r.below(2) as usize], None, r, &mut out.ev);
                        }
                        let mut e = out.ev.last().map(|x| !x.e).unwrap_or(true);
                        let m = if r.chance(1, 4) { 3 + r.below(4) } else { 1 + r.below(2) };
                        let pat: Vec<u64> = (0..m)
                            .map(|_| {
                                if r.chance(1, 8) {
                                    any_len(self.w, self.max, r)
                                } else {
                                    let c = 1 + r.below(self.w.len() as u64) as usize;
                                    good(self.w, c, r)
                                }
                            })
                            .collect();
                        for i in 0..n as usize {
                            out.ev.push(Ev { e, dt: pat[i % pat.len()] });
                            e = !e;
                        }
                        if !e {
                            out.ev.push(Ev { e, dt: any_len(self.w, self.max, r) });
                        }
                    }
                }
            }
            Op::Walk => {
                let n = *r.pick(&[3, 8, 20, 40, 70, 110]);
                self.walk(1 + r.below(n), None, r, out)
            }
            Op::Noise => {
                let n = 1 + r.below(6);
                let mut e = out.ev.last().map(|x| !x.e).unwrap_or(true);
                for _ in 0..n {
                    out.ev.push(Ev { e, dt: any_len(self.w, self.max, r) });
                    e = if !self.alt && r.chance(1, 6) { e } else { !e };
                }
                if (self.alt || r.chance(2, 3)) && out.ev.last().unwrap().e {
                    out.ev.push(Ev { e: false, dt: any_len(self.w, self.max, r) });
                }
            }
        }
    }
}
