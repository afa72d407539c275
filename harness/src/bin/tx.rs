//! Encoders and senders.
//!
//!   tx train|round|full|send|wrap|chaos
use harness::drive::*;
use harness::recv::*;
use harness::util::*;
use harness::{Ev, R};
use infrared::protocol::nec::{Nec16Command, NecCommand, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec};
use infrared::receiver::PeriodicPoll;
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::Protocol;
use std::cell::Cell;
use std::rc::Rc;

const SP: [&str; 6] = ["nec", "nec16", "samsung", "raw", "rc5", "rc6"];

macro_rules! freqs {
    ($($f:literal),*) => {
        const FS: &[u32] = &[$($f),*];
        /// The pulse train of a command
        fn encode(p: &str, f: u32, v: &[u32; 5]) -> Vec<u32> {
            match f {
                $($f => encode_at::<$f>(p, v),)*
                x => panic!("frequency {x}"),
            }
        }
    };
}
freqs!(
    10_000, 10_007, 12_345, 16_000, 20_000, 36_000, 38_000, 40_000, 44_100, 48_000, 56_000, 99_991, 100_000, 250_000,
    333_333, 500_000, 1_000_000, 1_000_003, 3_579_545, 8_000_000, 14_318_181, 48_000_000, 72_000_000, 100_000_000,
    168_000_000, 480_000_000, 2_000_000_000
);

trait Make: Protocol {
    fn make(v: &[u32; 5]) -> Self::Cmd;
}
impl Make for Nec {
    fn make(v: &[u32; 5]) -> NecCommand {
        NecCommand { addr: v[0] as u8, cmd: v[1] as u8, repeat: false }
    }
}
impl Make for SamsungNec {
    fn make(v: &[u32; 5]) -> SamsungNecCommand {
        SamsungNecCommand { addr: v[0] as u8, cmd: v[1] as u8, repeat: false }
    }
}
impl Make for Nec16 {
    fn make(v: &[u32; 5]) -> Nec16Command {
        Nec16Command { addr: v[0] as u16, cmd: v[1] as u8, repeat: false }
    }
}
impl Make for NecDebug {
    fn make(v: &[u32; 5]) -> NecDebugCmd {
        NecDebugCmd { bits: v[0] | v[1] << 16 }
    }
}
impl Make for Rc5 {
    fn make(v: &[u32; 5]) -> Rc5Command {
        Rc5Command { start: v[0] as u8, toggle: v[1] == 1, addr: v[2] as u8, cmd: v[3] as u8 }
    }
}
impl Make for Rc6 {
    fn make(v: &[u32; 5]) -> Rc6Command {
        Rc6Command { addr: v[0] as u8, cmd: v[1] as u8, toggle: v[2] == 1 }
    }
}
macro_rules! with_sp {
    ($p:expr, $P:ident => $b:expr) => {
        match $p {
            "nec" => { type $P = Nec; $b }
            "nec16" => { type $P = Nec16; $b }
            "samsung" => { type $P = SamsungNec; $b }
            "raw" => { type $P = NecDebug; $b }
            "rc5" => { type $P = Rc5; $b }
            "rc6" => { type $P = Rc6; $b }
            x => panic!("{x}"),
        }
    };
}
const POISON: u32 = 0xDEAD_BEEF;
fn encode_at<const F: u32>(p: &str, v: &[u32; 5]) -> Vec<u32> {
    let mut b = [POISON; 160];
    let n = with_sp!(p, P => <P as ProtocolEncoder<F>>::encode(&<P as Make>::make(v), &mut b));
    b[..n].to_vec()
}

/// How many commands a protocol has; number -> values
fn count(p: &str) -> u64 {
    match p {
        "nec" | "samsung" => 1 << 16,
        "nec16" => 1 << 24,
        "raw" => 1 << 32,
        "rc5" => 1 << 13,
        _ => 1 << 17,
    }
}
fn values(p: &str, i: u64) -> [u32; 5] {
    let i = i as u32;
    match p {
        "nec" | "samsung" => [i & 255, i >> 8, 0, 0, 0],
        "nec16" => [i & 0xFFFF, i >> 16, 0, 0, 0],
        "raw" => [i & 0xFFFF, i >> 16, 0, 0, 0],
        "rc5" => [2 + (i & 1), (i >> 1) & 1, (i >> 2) & 31, i >> 7, 0],
        _ => [(i >> 8) & 255, i & 255, i >> 16, 0, 0],
    }
}
/// The bits of the frame, in order of transmission
fn bits(p: &str, v: &[u32; 5]) -> Vec<u8> {
    let mut o = Vec::with_capacity(40);
    let put = |x| o.push(x);
    let lsb = |x: u32, n: u32| (0..n).map(move |i| ((x >> i) & 1) as u8);
    let msb = |x: u32, n: u32| (0..n).rev().map(move |i| ((x >> i) & 1) as u8);
    match p {
        "nec" => lsb(v[0], 8).chain(lsb(!v[0], 8)).chain(lsb(v[1], 8)).chain(lsb(!v[1], 8)).for_each(put),
        "samsung" => lsb(v[0], 8).chain(lsb(v[0], 8)).chain(lsb(v[1], 8)).chain(lsb(!v[1], 8)).for_each(put),
        "nec16" => lsb(v[0], 16).chain(lsb(v[1], 8)).chain(lsb(!v[1], 8)).for_each(put),
        "raw" => lsb(v[0], 16).chain(lsb(v[1], 16)).for_each(put),
        "rc5" => msb(v[0], 2).chain(msb(v[1], 1)).chain(msb(v[2], 5)).chain(msb(v[3], 6)).for_each(put),
        _ => msb(v[0], 8).chain(msb(v[1], 8)).for_each(put),
    }
    o
}
/// TrainUs in IrSend.tla (compared with TLC in every run)
fn train_us(p: &str, v: &[u32; 5]) -> Vec<u32> {
    let b = bits(p, v);
    let mut t = Vec::with_capacity(160);
    t.push(0);
    if p.starts_with("rc") {
        let mut lv: Vec<u8> = Vec::with_capacity(80);
        if p == "rc5" {
            b.iter().for_each(|x| lv.extend([1 - x, *x]));
        } else {
            lv.extend([1, 1, 1, 1, 1, 1, 0, 0]);
            [1u8, 0, 0, 0].iter().for_each(|x| lv.extend([*x, 1 - x]));
            let g = v[2] as u8;
            lv.extend([g, g, 1 - g, 1 - g]);
            b.iter().for_each(|x| lv.extend([*x, 1 - x]));
        }
        lv.push(0);
        let unit = if p == "rc5" { 889 } else { 444 };
        let at: Vec<usize> = (0..lv.len()).filter(|&i| lv[i] != if i == 0 { 0 } else { lv[i - 1] }).collect();
        t.extend(at.windows(2).map(|w| unit * (w[1] - w[0]) as u32));
    } else {
        t.extend([if p == "samsung" { 4500 } else { 9000 }, 4500]);
        b.iter().for_each(|x| t.extend([560, if *x == 1 { 1690 } else { 560 }]));
        t.push(560);
    }
    t
}
fn within(x: u32, us: u32, f: u32) -> bool {
    (x as i128 * 1_000_000 - us as i128 * f as i128).abs() <= 1_000_000
}
fn bad_train(t: &[u32], us: &[u32], f: u32) -> Option<String> {
    if t.len() != us.len() {
        return Some(format!("{} entries instead of {}", t.len(), us.len()));
    }
    if t[0] != 0 {
        return Some(format!("starts after {} ticks", t[0]));
    }
    let k = (1..t.len()).find(|&k| !within(t[k], us[k], f))?;
    Some(format!("entry {k} is {} ticks instead of {} us", t[k], us[k]))
}
fn js(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn nvals(p: &str) -> usize {
    match p {
        "rc5" => 5,
        _ => 3,
    }
}

/// "p f v.v.v:us,us,... v.v.v:us..."
type Tlc = (String, u32, Vec<([u32; 5], Vec<u32>)>);
fn read_round(path: &str) -> Vec<Tlc> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .map(|l| {
            let t: Vec<&str> = l.split(' ').collect();
            let cmds = t[2..]
                .iter()
                .map(|x| {
                    let (a, b) = x.split_once(':').unwrap();
                    let mut v = [0; 5];
                    a.split('.').enumerate().for_each(|(i, y)| v[i] = y.parse().unwrap());
                    (v, b.split(',').map(|y| y.parse().unwrap()).collect::<Vec<u32>>())
                })
                .collect::<Vec<_>>();
            for (v, us) in &cmds {
                if &train_us(t[0], v) != us {
                    println!("TOOLERR train of {} {v:?}: {:?} TLC {us:?}", t[0], train_us(t[0], v));
                    std::process::exit(2);
                }
            }
            (t[0].to_string(), t[1].parse().unwrap(), cmds)
        })
        .collect()
}

/// Commands of one case: protocol, frequency, values
fn pick(a: &Args, k: u64, r: &mut Rng, per: u64) -> (&'static str, u32, Vec<[u32; 5]>) {
    let sweep = a.num("--sweep", 0) > 0;
    if sweep {
        // every command of the small protocols at every frequency, a part of the others
        let chunks: Vec<(&str, u64)> = SP.iter().map(|p| (*p, (count(p).min(a.num("--most", 1 << 17))).div_ceil(per))).collect();
        let total: u64 = chunks.iter().map(|x| x.1).sum();
        let f = FS[((k / total) % FS.len() as u64) as usize];
        let mut i = k % total;
        for (p, n) in chunks {
            if i < n {
                let c = count(p);
                let v = (i * per..((i + 1) * per).min(c))
                    .map(|j| {
                        // spread over the whole range by an odd multiplier
                        let j = if c <= a.num("--most", 1 << 17) { j } else { j.wrapping_mul(0x9E37_79B1).wrapping_add(a.num("--seed", 1)) & (c - 1) };
                        values(p, j)
                    })
                    .collect();
                return (p, f, v);
            }
            i -= n;
        }
    }
    let p = *r.pick(&SP);
    let f = *r.pick(FS);
    let v = (0..1 + r.below(per)).map(|_| values(p, r.below(count(p)))).collect();
    (p, f, v)
}
/// Number of cases of a whole sweep
fn sweep_size(a: &Args, per: u64) -> u64 {
    SP.iter().map(|p| count(p).min(a.num("--most", 1 << 17)).div_ceil(per)).sum::<u64>() * FS.len() as u64
}

// ------------------------------------------------------------------ train
fn train(a: Args) {
    let per = 2048;
    let cases = a.opt("--cases").map(read_round);
    let rec = a.opt("--record").is_some();
    let n = match &cases {
        Some(c) => c.len() as u64,
        None if rec => a.num("--record", 10),
        None if a.num("--sweep", 0) > 0 => sweep_size(&a, per),
        None => a.num("--n", 1000),
    };
    let a2 = Args(a.0.clone());
    drive("tx train", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let (p, f, vs) = match &cases {
            Some(c) => {
                let x = &c[k as usize];
                o.add("tlc_traces", 1);
                (x.0.as_str(), x.1, x.2.iter().map(|y| y.0).collect::<Vec<_>>())
            }
            None => pick(&a2, k, r, if rec { 4 } else { per }),
        };
        o.add("trains", vs.len() as u64);
        let at = Cell::new(0);
        let ts: Vec<Vec<u32>> = match o.call(|| {
            vs.iter().enumerate().map(|(i, v)| {
                at.set(i);
                encode(p, f, v)
            }).collect()
        }) {
            Ok(t) => t,
            Err(m) => {
                o.viol(format!("{p} {:?} at {f} Hz: panic {m}", vs[at.get()]));
                return;
            }
        };
        for (v, t) in vs.iter().zip(&ts) {
            if let Some(why) = bad_train(t, &train_us(p, v), f) {
                o.viol(format!("{p} command {v:?} at {f} Hz: pulse train {t:?}: {why}; nominal {:?} us", train_us(p, v)));
                return;
            }
            if rec && t.iter().all(|x| *x < 1 << 30) && f <= 1_000_000_000 {
                let g = if p == "rc6" { v[2] } else { 0 };
                let b: Vec<u32> = bits(p, v).iter().map(|x| *x as u32).collect();
                println!("REC {{\"p\":\"{p}\",\"f\":{f},\"b\":[{}],\"g\":{g},\"t\":[{}]}}", js(&b), js(t));
            }
        }
        o.distinct.insert(hash(&[k, f as u64, vs[0][0] as u64, vs[0][1] as u64, vs[0][2] as u64]));
        if k == 3 {
            o.sample = Some(format!("{p} {:?} at {f} Hz: {:?}", vs[0], encode(p, f, &vs[0])));
        }
    });
}

// ------------------------------------------------------------------ round
/// Feeds trains to a receiver; what it reported per command
fn feed(p: &str, f: u32, fe: &str, mono: &str, trains: &[Vec<u32>], gaps: &[u64], o: &Out) -> Result<Vec<Vec<R>>, String> {
    o.call(|| {
        let mut rx = make(p, fe, mono, f);
        trains
            .iter()
            .zip(gaps)
            .map(|(t, g)| {
                let mut out = vec![];
                for (k, d) in t.iter().enumerate() {
                    let x = rx.ev(k % 2 == 0, if k == 0 { *g } else { *d as u64 });
                    if x != R::N {
                        out.push(x);
                    }
                }
                out
            })
            .collect()
    })
}

fn round(a: Args) {
    let per = 2048;
    let cases = a.opt("--cases").map(read_round);
    let rec = a.opt("--record").is_some();
    let n = match &cases {
        Some(c) => c.len() as u64,
        None if rec => a.num("--record", 10),
        None if a.num("--sweep", 0) > 0 => sweep_size(&a, per),
        None => a.num("--n", 1000),
    };
    let a2 = Args(a.0.clone());
    drive("tx round", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let (p, f, vs) = match &cases {
            Some(c) => {
                let x = &c[k as usize];
                o.add("tlc_traces", 1);
                (x.0.as_str(), x.1, x.2.iter().map(|y| y.0).collect::<Vec<_>>())
            }
            None => pick(&a2, k, r, if rec { 6 } else { per }),
        };
        o.add("commands", vs.len() as u64);
        let trains = match o.call(|| vs.iter().map(|v| encode(p, f, v)).collect::<Vec<_>>()) {
            Ok(t) => t,
            Err(m) => {
                o.viol(format!("{p} at {f} Hz: panic {m} encoding one of {:?}", &vs[..vs.len().min(5)]));
                return;
            }
        };
        // longer than any pulse: 20 ms to 200 ms, sometimes much longer
        let ms = (f as u64).div_ceil(1000);
        let gaps: Vec<u64> = vs.iter().map(|_| if r.chance(1, 50) { r.range(ms * 200, 2_000_000_000.max(ms * 201)) } else { r.range(ms * 20, ms * 200) }).collect();
        let fe = *r.pick(&["edge", "event", "inst", "total", "pin"]);
        let fe = if FRONTS.contains(&fe) { fe } else { "edge" };
        let mono = if gaps.iter().any(|g| *g > u32::MAX as u64 / 2) { "u64" } else { *r.pick(&["u32", "u64"]) };
        let sum: u128 = gaps.iter().map(|x| *x as u128 + (f / 8) as u128).sum();
        let fe = if sum > u32::MAX as u128 / 2 && fe == "inst" && mono == "u32" { "edge" } else { fe };
        let got = match feed(p, f, fe, mono, &trains, &gaps, o) {
            Ok(g) => g,
            Err(m) => {
                o.viol(format!("{p} at {f} Hz ({fe}/{mono}): panic {m} receiving one of {:?}", &vs[..vs.len().min(5)]));
                return;
            }
        };
        for i in 0..vs.len() {
            if got[i] != [R::C(vs[i])] {
                o.viol(format!(
                    "{p} at {f} Hz ({fe}/{mono}): command {:?}, sent {i}th (before it {:?}), is received as {:?}; pulse train {:?}",
                    &vs[i][..nvals(p)],
                    if i > 0 { &vs[i - 1][..nvals(p)] } else { &[] },
                    got[i].iter().map(|x| x.show()).collect::<Vec<_>>(),
                    trains[i]
                ));
                return;
            }
        }
        // the same through a buffer
        let mut buf: Vec<u64> = vec![];
        for (t, g) in trains.iter().zip(&gaps) {
            buf.push(*g);
            buf.extend(t[1..].iter().map(|x| *x as u64));
        }
        let bmono = if gaps.iter().any(|g| *g > u32::MAX as u64) { "u64" } else { mono };
        match o.call(|| make_buffer(p, bmono, f, 0, &buf)) {
            Err(m) => o.viol(format!("{p} at {f} Hz: panic {m} in a buffer")),
            Ok(g) => {
                let want: Vec<R> = vs.iter().map(|v| R::C(*v)).collect();
                if g != want {
                    let i = (0..).find(|&i| g.get(i) != want.get(i)).unwrap();
                    o.viol(format!("{p} at {f} Hz: buffer gives {:?} instead of {:?} at command {i} ({} of {})", g.get(i), want.get(i), g.len(), want.len()));
                }
            }
        }
        if rec {
            let w = |v: &[u32; 5]| format!("[{}]", js(&v[..nvals(p)]));
            let gs: Vec<String> = got.iter().flatten().map(|x| x.json(nvals(p))).collect();
            println!("REC {{\"p\":\"{p}\",\"f\":{f},\"cmds\":[{}],\"got\":[{}]}}", vs.iter().map(w).collect::<Vec<_>>().join(","), gs.join(","));
        }
        o.distinct.insert(hash(&[k, f as u64, vs[0][0] as u64, vs[0][1] as u64, vs[0][2] as u64]));
        if k == 3 {
            o.sample = Some(format!("{p} at {f} Hz: {:?} ...", &vs[..vs.len().min(5)]));
        }
    });
}

// ------------------------------------------------------------------- send
#[derive(Clone, Default)]
struct Pwm(Rc<Cell<bool>>);
impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn disable(&mut self) {
        self.0.set(false);
    }
    fn enable(&mut self) {
        self.0.set(true);
    }
    fn get_duty(&self) -> u16 {
        1
    }
    fn get_max_duty(&self) -> u16 {
        2
    }
    fn set_duty(&mut self, _: u16) {}
}
/// A protocol whose commands are pulse trains
struct Tiny;
impl Protocol for Tiny {
    type Cmd = Vec<u32>;
}
impl<const F: u32> ProtocolEncoder<F> for Tiny {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(c: &Vec<u32>, b: &mut [u32]) -> usize {
        b[..c.len()].copy_from_slice(c);
        c.len()
    }
}
trait Tx {
    fn load_tiny(&mut self, t: &Vec<u32>);
    fn load(&mut self, p: &str, v: &[u32; 5]);
    fn tick(&mut self) -> bool;
    fn ticks(&mut self, n: u64) -> u64;
    fn buffer(&self) -> Vec<u32>;
}
struct Hal<const F: u32, const S: usize>(Sender<Pwm, F, S>, Pwm);
impl<const F: u32, const S: usize> Tx for Hal<F, S> {
    fn load_tiny(&mut self, t: &Vec<u32>) {
        self.0.load::<Tiny>(t)
    }
    fn load(&mut self, p: &str, v: &[u32; 5]) {
        with_sp!(p, P => self.0.load::<P>(&<P as Make>::make(v)))
    }
    fn tick(&mut self) -> bool {
        self.0.tick();
        self.1 .0.get()
    }
    fn ticks(&mut self, n: u64) -> u64 {
        let mut k = 0;
        for _ in 0..n {
            self.0.tick();
            k += self.1 .0.get() as u64;
        }
        k
    }
    fn buffer(&self) -> Vec<u32> {
        self.0.buffer().to_vec()
    }
}
/// The sender without a pin; its user counts the ticks
struct Bare<const F: u32, const S: usize>(PulsedataSender<S>, u32);
impl<const F: u32, const S: usize> Tx for Bare<F, S> {
    fn load_tiny(&mut self, t: &Vec<u32>) {
        self.0.load_command::<Tiny, F>(t);
    }
    fn load(&mut self, p: &str, v: &[u32; 5]) {
        with_sp!(p, P => self.0.load_command::<P, F>(&<P as Make>::make(v)));
    }
    fn tick(&mut self) -> bool {
        let s = self.0.tick(self.1);
        self.1 = self.1.wrapping_add(1);
        s == Status::Transmit(true)
    }
    fn ticks(&mut self, n: u64) -> u64 {
        (0..n).map(|_| self.tick() as u64).sum()
    }
    fn buffer(&self) -> Vec<u32> {
        self.0.buffer().to_vec()
    }
}
const SF: [u32; 5] = [10_000, 20_000, 38_000, 44_100, 1_000_000];
/// bare: the count at which a sender without a pin starts; need: entries of the longest train
fn make_tx(f: u32, bare: Option<u32>, need: usize) -> Box<dyn Tx> {
    fn mk<const F: u32, const S: usize>(bare: Option<u32>) -> Box<dyn Tx> {
        if let Some(start) = bare {
            Box::new(Bare::<F, S>(PulsedataSender::new(), start))
        } else {
            let pin = Pwm::default();
            Box::new(Hal::<F, S>(Sender::new(pin.clone()), pin))
        }
    }
    fn sized<const F: u32>(bare: Option<u32>, need: usize) -> Box<dyn Tx> {
        match need {
            0..=8 => mk::<F, 8>(bare),
            9..=68 => mk::<F, 68>(bare),
            69..=128 => mk::<F, 128>(bare),
            _ => mk::<F, 700>(bare),
        }
    }
    match f {
        10_000 => sized::<10_000>(bare, need),
        20_000 => sized::<20_000>(bare, need),
        38_000 => sized::<38_000>(bare, need),
        44_100 => sized::<44_100>(bare, need),
        1_000_000 => sized::<1_000_000>(bare, need),
        x => panic!("{x}"),
    }
}
#[derive(Clone, Debug)]
enum Op {
    LoadTiny(Vec<u32>),
    Load(&'static str, [u32; 5]),
    Tick(u64),
}
/// The carrier the specification asks for
struct Ideal {
    t: Vec<u32>,
    n: u64,
}
impl Ideal {
    fn len(&self) -> u64 {
        self.t.iter().map(|x| *x as u64).sum()
    }
    fn free(&self) -> bool {
        self.t.is_empty() || self.n == 0 || self.n >= self.len() + 2
    }
    fn open(&self) -> bool {
        !self.t.is_empty() && self.n == self.len() + 1
    }
    fn on(&self) -> bool {
        if self.t.is_empty() || self.n == 0 {
            return false;
        }
        let mut s = 0u64;
        let mut e = 0;
        for x in &self.t {
            s += *x as u64;
            if s > self.n - 1 {
                break;
            }
            e += 1;
        }
        e % 2 == 1
    }
}
/// Plays a program; per tick (carrier, expected), or a complaint
fn program(f: u32, bare: Option<u32>, ops: &[Op], o: &mut Out) -> Result<Vec<bool>, String> {
    let mut carriers = vec![];
    let mut played = 0;
    let r = o.call(|| {
        let need = ops.iter().map(|x| match x {
            Op::LoadTiny(t) => t.len(),
            Op::Load(..) => 68,
            _ => 0,
        });
        let mut tx = make_tx(f, bare, need.max().unwrap_or(0));
        let mut id = Ideal { t: vec![], n: 0 };
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Tick(n) => {
                    for _ in 0..*n {
                        let c = tx.tick();
                        id.n += 1;
                        carriers.push(c);
                        if c != id.on() {
                            return Err(format!("op {i}: carrier {c} in tick {} after the load of {:?}", id.n, id.t));
                        }
                    }
                }
                _ => {
                    // what the statement leaves open; the bare sender is loaded when free only
                    if id.open() || (bare.is_some() && !id.free()) {
                        continue;
                    }
                    let (t, real) = match op {
                        Op::LoadTiny(t) => (t.clone(), None),
                        Op::Load(p, v) => (encode(p, f, v), Some((*p, v))),
                        _ => unreachable!(),
                    };
                    match real {
                        None => tx.load_tiny(&t),
                        Some((p, v)) => tx.load(p, v),
                    }
                    if id.free() {
                        id = Ideal { t, n: 0 };
                        played += 1;
                    }
                    if tx.buffer() != id.t {
                        return Err(format!("op {i}: the buffer is {:?} instead of {:?}", tx.buffer(), id.t));
                    }
                }
            }
        }
        Ok(())
    });
    o.add("played", played);
    o.add("ticks", carriers.len() as u64);
    match r {
        Ok(Ok(())) => Ok(carriers),
        Ok(Err(m)) => Err(m),
        Err(m) => Err(format!("panic {m}")),
    }
}

fn send(a: Args) {
    if let Some(path) = a.opt("--cases") {
        // "l0.3.2 t1 t0 ..."
        let lines: Vec<String> = std::fs::read_to_string(path).unwrap().lines().map(|s| s.to_string()).collect();
        let n = lines.len() as u64;
        drive("tx send replay", &a, n, 8, move |k, _r, o| {
            let mut ops = vec![];
            let mut want = vec![];
            for x in lines[k as usize].split(' ') {
                if let Some(t) = x.strip_prefix('l') {
                    ops.push(Op::LoadTiny(t.split('.').map(|y| y.parse().unwrap()).collect()));
                } else {
                    ops.push(Op::Tick(1));
                    want.push(x == "t1");
                }
            }
            for f in [10_000, 1_000_000] {
                for bare in [None, Some(0), Some(0x7FFF_FFFF), Some(u32::MAX), Some(u32::MAX - want.len() as u32 / 2)] {
                    o.add("runs", 1);
                    match program(f, bare, &ops, o) {
                        Err(m) => o.viol(format!("sender (bare {bare:?}): {m}; program {}", lines[k as usize])),
                        Ok(c) if c != want => {
                            // the harness's own idea of the carrier disagrees with TLC
                            println!("TOOLERR carrier of {}", lines[k as usize]);
                            std::process::exit(2);
                        }
                        _ => {}
                    }
                }
            }
            o.distinct.insert(hash(&lines[k as usize].bytes().map(|b| b as u64).collect::<Vec<_>>()));
            o.add("tlc_traces", 1);
        });
        return;
    }
    let rec = a.opt("--record").is_some();
    let n = if rec { a.num("--record", 10) } else { a.num("--n", 1000) };
    drive("tx send", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let f = if r.chance(1, 40) && !rec { 1_000_000 } else { *r.pick(&SF[..4]) };
        let mut bare = None;
        let real = !rec && r.chance(1, 3);
        let mut ops = vec![];
        // the length of what is being played, to aim at its end
        let mut cur = 0u64;
        for _ in 0..2 + r.below(12) {
            if r.chance(1, 2) {
                let (op, len) = if real && r.chance(3, 4) {
                    let p = *r.pick(&SP);
                    let v = values(p, r.below(count(p)));
                    let l = encode(p, f, &v).iter().map(|x| *x as u64).sum();
                    (Op::Load(p, v), l)
                } else {
                    let hi = *r.pick(&[1, 2, 3, 10, 60]);
                    let most = if r.chance(1, 10) { 60 } else { 6 };
                    // now and then more entries than 8 bits can count
                    let m = if r.chance(1, 40) { 120 + r.below(230) } else { 1 + r.below(most) };
                    let mut t: Vec<u32> = (0..2 * m).map(|i| if i == 0 { 0 } else { 1 + r.below(hi) as u32 }).collect();
                    if r.chance(1, 60) && !rec {
                        // longer than any counter of 8 or 16 bits
                        let i = 1 + r.below(2 * m - 1) as usize;
                        t[i] = *r.pick(&[255, 256, 65_535, 65_536, 65_537, 100_000, 144_000, 1 << 18]) + r.below(3) as u32;
                    }
                    let l = t.iter().map(|x| *x as u64).sum();
                    (Op::LoadTiny(t), l)
                };
                ops.push(op);
                cur = len;
            } else {
                ops.push(Op::Tick(match r.below(6) {
                    0 => 1 + r.below(4),
                    1 => r.below(cur + 5),
                    2 => cur + r.below(5),
                    3 => cur + r.below(300),
                    _ => (cur + 2).saturating_sub(r.below(3)) + r.below(2),
                }));
            }
        }
        if r.chance(1, 3) {
            let total: u64 = ops.iter().map(|x| if let Op::Tick(n) = x { *n } else { 0 }).sum();
            bare = Some(match r.below(4) {
                0 => r.below(1 << 32) as u32,
                1 => (1u32 << 31).wrapping_sub(r.below(total + 1) as u32),
                _ => 0u32.wrapping_sub(r.below(total + 1) as u32),
            });
        }
        o.add("runs", 1);
        o.distinct.insert(hash(&format!("{f}{bare:?}{ops:?}").bytes().map(|b| b as u64).collect::<Vec<_>>()));
        match program(f, bare, &ops, o) {
            Err(m) => o.viol(format!("sender at {f} Hz (bare {bare:?}): {m}; program {ops:?}")),
            Ok(c) => {
                if rec && bare.is_none() {
                    let mut ts = vec![];
                    let mut os = vec![];
                    let mut i = 0;
                    let mut last = false;
                    let mut id = Ideal { t: vec![], n: 0 };
                    for op in &ops {
                        match op {
                            Op::Tick(n) => {
                                for _ in 0..*n {
                                    last = c[i];
                                    os.push(format!("[\"t\",{}]", last as u8));
                                    i += 1;
                                    id.n += 1;
                                }
                            }
                            Op::LoadTiny(t) => {
                                if id.open() {
                                    continue;
                                }
                                ts.push(format!("[{}]", js(t)));
                                os.push(format!("[\"l\",{},{}]", ts.len(), last as u8));
                                if id.free() {
                                    id = Ideal { t: t.clone(), n: 0 };
                                }
                            }
                            _ => unreachable!(),
                        }
                    }
                    if !ts.is_empty() {
                        println!("REC {{\"t\":[{}],\"ops\":[{}]}}", ts.join(","), os.join(","));
                    }
                }
            }
        }
        if k == 3 {
            o.sample = Some(format!("{f} Hz, bare {bare:?}: {:?}", &ops[..ops.len().min(6)]));
        }
    });
}

#[derive(Clone, Debug)]
enum St {
    Load(Vec<u32>),
    Real(&'static str, [u32; 5]),
    Reset,
    /// increment of the time stamp; from TLC: carrier, idle
    Tick(u32, Option<(bool, bool)>),
}
/// Plays a program on a sender whose user passes time stamps; MCStamp.tla
fn stamps<const F: u32>(start: u32, ops: &[St]) -> Result<(), String> {
    let need = ops.iter().map(|x| match x {
        St::Load(t) => t.len(),
        St::Real(..) => 68,
        _ => 0,
    });
    match need.max().unwrap_or(0) {
        0..=16 => stamps_in::<F, 16>(start, ops),
        17..=68 => stamps_in::<F, 68>(start, ops),
        _ => stamps_in::<F, 700>(start, ops),
    }
}
fn stamps_in<const F: u32, const S: usize>(start: u32, ops: &[St]) -> Result<(), String> {
    let mut tx: PulsedataSender<S> = PulsedataSender::new();
    let mut ts = start;
    let (mut t, mut k, mut age): (Vec<u32>, usize, u64) = (vec![], 0, 0);
    for (i, op) in ops.iter().enumerate() {
        match op {
            St::Load(x) => {
                tx.load_command::<Tiny, F>(x);
                (t, k, age) = (x.clone(), 0, 0);
            }
            St::Real(p, v) => {
                with_sp!(*p, P => tx.load_command::<P, F>(&<P as Make>::make(v)));
                (t, k, age) = (encode(p, F, v), 0, 0);
            }
            St::Reset => {
                tx.reset();
                (t, k, age) = (vec![], 0, 0);
            }
            St::Tick(inc, tlc) => {
                ts = ts.wrapping_add(*inc);
                let got = tx.tick(ts);
                if k >= t.len() {
                    k = t.len() + 1;
                } else if k == 0 || age + *inc as u64 >= t[k] as u64 {
                    k += 1;
                    age = 0;
                } else {
                    age += *inc as u64;
                }
                let (on, idle) = (k <= t.len() && k % 2 == 1, k == 0 || k > t.len());
                if tlc.is_some_and(|x| x != (on, idle)) {
                    println!("TOOLERR stamps {ops:?}");
                    std::process::exit(2);
                }
                let carrier = got == Status::Transmit(true);
                // the tick that ends the last mark may already say idle
                let open = k == t.len();
                if carrier != on || (!open && (got == Status::Idle) != idle) || got == Status::Error {
                    return Err(format!("op {i}: {got:?} at time stamp {ts}, {} entries into {t:?}", k));
                }
            }
        }
        if tx.buffer() != t {
            return Err(format!("op {i}: the buffer is {:?} instead of {t:?}", tx.buffer()));
        }
    }
    Ok(())
}
fn stamp(a: Args) {
    let lines: Option<Vec<String>> = a.opt("--cases").map(|p| std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()).collect());
    let n = lines.as_ref().map_or(a.num("--n", 1000), |l| l.len() as u64);
    drive("tx stamp", &a, n, 8, move |k, r, o| {
        let mut ops = vec![];
        let f = *r.pick(&[10_000, 20_000, 1_000_000]);
        if let Some(l) = &lines {
            for x in l[k as usize].split(' ') {
                let y = &x[1..];
                ops.push(match x.as_bytes()[0] {
                    b'l' => St::Load(y.split('.').map(|z| z.parse().unwrap()).collect()),
                    b'r' => St::Reset,
                    _ => {
                        let v: Vec<u32> = y.split('.').map(|z| z.parse().unwrap()).collect();
                        St::Tick(v[0], Some((v[1] == 1, v[2] == 1)))
                    }
                });
            }
            o.add("tlc_traces", 1);
        } else {
            for _ in 0..1 + r.below(4) {
                let t = if r.chance(1, 3) {
                    let p = *r.pick(&SP);
                    let v = values(p, r.below(count(p)));
                    ops.push(St::Real(p, v));
                    encode(p, f, &v)
                } else {
                    let hi = *r.pick(&[1, 3, 10, 60, 1000, 100_000]);
                    let m = if r.chance(1, 40) { 120 + r.below(230) } else { 1 + r.below(8) };
                    let t: Vec<u32> = (0..2 * m).map(|i| if i == 0 { 0 } else { 1 + r.below(hi) as u32 }).collect();
                    ops.push(St::Load(t.clone()));
                    t
                };
                let stop = if r.chance(1, 6) { r.below(t.len() as u64 + 1) as usize } else { t.len() };
                let style = r.below(4);
                for (i, d) in t.iter().enumerate().take(stop) {
                    // reach the edge in a few steps, exactly or late
                    let mut left = *d;
                    while left > 1 && r.chance(2, 3) {
                        let step = 1 + r.below(left as u64 - 1) as u32;
                        ops.push(St::Tick(step, None));
                        left -= step;
                    }
                    let late = match style {
                        0 => 0,
                        1 => 1,
                        2 => r.below(4) as u32,
                        _ => if r.chance(1, 4) { r.below(2 * *d as u64 + 2) as u32 } else { 0 },
                    };
                    ops.push(St::Tick((left + late).max(if i == 0 { 0 } else { 1 }), None));
                }
                if r.chance(1, 8) {
                    ops.push(St::Reset);
                }
                for _ in 0..r.below(4) {
                    ops.push(St::Tick(*r.pick(&[1, 1, 2, 100, 70_000, 1 << 31]), None));
                }
            }
        }
        let total: u32 = ops.iter().fold(0u32, |s, x| if let St::Tick(i, _) = x { s.wrapping_add(*i) } else { s });
        let start = match r.below(5) {
            0 => 0,
            1 => r.below(1 << 32) as u32,
            2 => (1u32 << 31).wrapping_sub(r.below(total as u64 + 1) as u32),
            _ => 0u32.wrapping_sub(r.below(total as u64 + 1) as u32),
        };
        o.add("stamp_runs", 1);
        o.distinct.insert(hash(&format!("{f}{start}{ops:?}").bytes().map(|b| b as u64).collect::<Vec<_>>()));
        match o.call(|| match f {
            10_000 => stamps::<10_000>(start, &ops),
            20_000 => stamps::<20_000>(start, &ops),
            _ => stamps::<1_000_000>(start, &ops),
        }) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => o.viol(format!("sender with time stamps from {start} at {f} Hz: {m}; program {ops:?}")),
            Err(m) => o.viol(format!("sender with time stamps from {start} at {f} Hz: panic {m}; program {ops:?}")),
        }
        if k == 3 {
            o.sample = Some(format!("stamps from {start}: {:?}", &ops[..ops.len().min(6)]));
        }
    });
}

/// The sender's counter passes its end while idle
fn wrap(a: Args) {
    let n = a.num("--n", 1);
    drive("tx wrap", &a, n, 8, move |k, r, o| {
        let r1 = o.call(|| {
            let mut tx = make_tx(20_000, None, 128);
            if k % 2 == 1 {
                tx.load_tiny(&vec![0, 3, 2, 3]);
                tx.ticks(20);
            }
            let mut left = (1u64 << 32) + 5 - r.below(10);
            while left > 0 {
                let m = left.min(1 << 26);
                if tx.ticks(m) != 0 {
                    return Err("carrier on while idle".to_string());
                }
                left -= m;
                beat(o.slot, o.case);
            }
            let t = vec![0, 3, 2, 4];
            tx.load_tiny(&t);
            let mut id = Ideal { t, n: 0 };
            for _ in 0..30 {
                id.n += 1;
                if tx.tick() != id.on() {
                    return Err(format!("carrier wrong in tick {} of a command loaded after 2^32 idle ticks", id.n));
                }
            }
            Ok(())
        });
        match r1 {
            Ok(Ok(())) => {}
            Ok(Err(m)) => o.viol(m),
            Err(m) => o.viol(format!("panic {m} in about 2^32 idle ticks of the sender")),
        }
        o.add("counter_wraps", 1);
    });
}

/// Sender, pin, poll receiver
fn full(a: Args) {
    let n = a.num("--n", 100);
    drive("tx full", &a, n, 8, move |k, r, o| {
        let p = *r.pick(&SP);
        let f = *r.pick(&SF[..4]);
        let vs: Vec<[u32; 5]> = (0..1 + r.below(4)).map(|_| values(p, r.below(count(p)))).collect();
        let res = o.call(|| {
            let mut tx = make_tx(f, None, 68);
            fn poll<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, tx: &mut dyn Tx, p: &str, vs: &[[u32; 5]], idle: u64) -> Vec<Vec<R>>
            where
                P::Cmd: Val,
            {
                let mut rx: PeriodicPoll<P> = PeriodicPoll::new(f);
                vs.iter()
                    .map(|v| {
                        let len: u64 = encode(p, f, v).iter().map(|x| *x as u64).sum();
                        let mut out = vec![];
                        tx.load(p, v);
                        for _ in 0..len + 2 + idle {
                            let x = harness::recv::res(rx.poll(tx.tick()));
                            if x != R::N {
                                out.push(x);
                            }
                        }
                        out
                    })
                    .collect()
            }
            let idle = f as u64 / 50 + r.below(1000);
            with_sp!(p, P => poll::<P>(f, tx.as_mut(), p, &vs, idle))
        });
        o.add("full_stack_commands", vs.len() as u64);
        match res {
            Err(m) => o.viol(format!("{p} at {f} Hz, sender to poll receiver: panic {m}")),
            Ok(got) => {
                for i in 0..vs.len() {
                    if got[i] != [R::C(vs[i])] {
                        o.viol(format!("{p} at {f} Hz, sender to poll receiver: {:?} received as {:?} (commands {vs:?})", vs[i], got[i].iter().map(|x| x.show()).collect::<Vec<_>>()));
                        return;
                    }
                }
            }
        }
        if k == 3 {
            o.sample = Some(format!("sender to poll receiver: {p} at {f} Hz {vs:?}"));
        }
    });
}

/// Anything goes, nothing may panic
fn chaos(a: Args) {
    let n = a.num("--n", 100);
    drive("tx chaos", &a, n, 8, move |k, r, o| {
        let mut log = vec![];
        let res = o.call(|| {
            let mut s: PulsedataSender<128> = PulsedataSender::new();
            let mut h: Sender<Pwm, 38_000, 128> = Sender::new(Pwm::default());
            let mut ts = 0u32;
            for _ in 0..r.below(3000) {
                let z = r.below(40);
                match z {
                    0 => {
                        let p = *r.pick(&SP);
                        let v = values(p, r.below(count(p)));
                        log.push(format!("load {p} {v:?}"));
                        with_sp!(p, P => s.load_command::<P, 38_000>(&<P as Make>::make(&v)));
                        with_sp!(p, P => h.load::<P>(&<P as Make>::make(&v)));
                    }
                    1 => {
                        log.push("reset".into());
                        s.reset();
                    }
                    2 => {
                        // also trains with extreme entries
                        let t: Vec<u32> = (0..r.below(20)).map(|_| *r.pick(&[0, 1, 2, u32::MAX, u32::MAX / 2 + 1])).collect();
                        log.push(format!("load {t:?}"));
                        s.load_command::<Tiny, 38_000>(&t);
                        h.load::<Tiny>(&t);
                    }
                    3 => ts = r.next() as u32,
                    4 => ts = *r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31]),
                    5 => ts = ts.wrapping_sub(r.below(1000) as u32),
                    _ => ts = ts.wrapping_add(r.below(100) as u32),
                }
                s.tick(ts);
                h.tick();
                log.push(format!("tick {ts}"));
                s.buffer();
            }
        });
        o.add("runs", 1);
        if let Err(m) = res {
            let from = log.len().saturating_sub(60);
            o.viol(format!("panic {m} in the sender after ... {:?}", &log[from..]));
        }
        o.distinct.insert(k);
    });
}

fn main() {
    silence_panics();
    let a = Args::get();
    let _ = Ev { e: true, dt: 0 };
    match a.0[0].as_str() {
        "train" => train(a),
        "round" => round(a),
        "send" => send(a),
        "wrap" => wrap(a),
        "stamp" => stamp(a),
        "full" => full(a),
        "chaos" => chaos(a),
        x => panic!("{x}"),
    }
}
