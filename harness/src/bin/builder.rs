//! Receivers made by the builder against directly constructed ones.  The cases are generated
//! from the specification (generated/cases.rs, written by p_build.py).
use harness::drive::*;
use harness::model::*;
use harness::recv::*;
use harness::util::*;
use harness::{with_proto, Ev};
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{BufferInputReceiver, Builder, DecoderBuilder, NoPin};
use infrared::remotecontrol::{nec as rnec, rc5 as rrc5, sbp as rsbp, Button};
use infrared::{protocol as pr, PeriodicPoll, Protocol, Receiver};
use std::fmt::Debug;

type F32 = fugit::TimerInstantU32<1_000_000>;
type F64 = fugit::TimerInstantU64<1_000_000>;

/// What a line change does to a receiver
trait Drv {
    /// way: 0 duration, 1 time stamp; k: number of the edge
    fn ev(&mut self, e: Ev, t: u64, way: u64, k: usize) -> String;
}
impl<P, M, C> Drv for Receiver<P, NoPin, M, C>
where
    M: MonoX,
    P: DecoderBuilder<M>,
    C: From<P::Cmd> + Debug,
{
    fn ev(&mut self, e: Ev, t: u64, way: u64, k: usize) -> String {
        match (way, k % 2) {
            (1, _) => format!("{:?}", self.event_instant(M::inst(t & M::MAX), e.e)),
            (_, 0) => format!("{:?}", self.event(M::dur(e.dt), e.e)),
            _ => format!("{:?}", self.event_edge(M::dur(e.dt), e.e)),
        }
    }
}
impl<P, M, C> Drv for Receiver<P, Pin, M, C>
where
    M: MonoX,
    P: DecoderBuilder<M>,
    C: From<P::Cmd> + Debug,
{
    fn ev(&mut self, e: Ev, t: u64, way: u64, _k: usize) -> String {
        match way {
            1 => format!("{:?}", self.event_instant(M::inst(t & M::MAX))),
            _ => format!("{:?}", self.event(M::dur(e.dt))),
        }
    }
}
/// Polled: the level is held for n polls
trait Pol {
    fn polls(&mut self, level: bool, n: u64, out: &mut Vec<String>);
}
impl<P: DecoderBuilder<u32>, C: From<<P as Protocol>::Cmd> + Debug> Pol for PeriodicPoll<P, NoPin, C> {
    fn polls(&mut self, level: bool, n: u64, out: &mut Vec<String>) {
        for k in 0..n {
            let r = self.poll(level);
            if k == 0 || !matches!(r, Ok(None)) {
                out.push(format!("{r:?}"));
            }
        }
    }
}
impl<P: DecoderBuilder<u32>, C: From<<P as Protocol>::Cmd> + Debug> Pol for PeriodicPoll<P, Pin, C> {
    fn polls(&mut self, _level: bool, n: u64, out: &mut Vec<String>) {
        for k in 0..n {
            let r = self.poll();
            if k == 0 || !matches!(r, Ok(None)) {
                out.push(format!("{r:?}"));
            }
        }
    }
}

/// Two pins on the same line; B cannot be read at every fifth edge
struct Pins {
    a: Pin,
    b: Pin,
}
impl Pins {
    fn new() -> Self {
        Pins { a: Pin::default(), b: Pin::default() }
    }
    fn set(&self, level: bool, k: usize) {
        self.a.low.set(level);
        self.b.low.set(level);
        self.b.fail.set(if k % 5 == 3 { 77 } else { 0 });
    }
}
type Made = fn(Pin, Pin) -> Box<dyn Drv>;
type MadePoll = fn(Pin, Pin) -> Box<dyn Pol>;
struct Case {
    calls: &'static str,
    settings: &'static str,
    p: &'static str,
    f: u32,
    built: Made,
    direct: Made,
    built_poll: MadePoll,
    direct_poll: MadePoll,
}
fn bx<D: Drv + 'static>(d: D) -> Box<dyn Drv> {
    Box::new(d)
}
fn bp<D: Pol + 'static>(d: D) -> Box<dyn Pol> {
    Box::new(d)
}

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/generated/cases.rs"));

fn run(m: Made, ev: &[Ev], way: u64) -> Vec<String> {
    let pins = Pins::new();
    let mut d = m(pins.a.clone(), pins.b.clone());
    let mut t = 0u64;
    ev.iter()
        .enumerate()
        .map(|(k, e)| {
            t = t.wrapping_add(e.dt);
            pins.set(e.e, k);
            d.ev(*e, t, way, k)
        })
        .collect()
}
fn run_poll(m: MadePoll, ev: &[Ev]) -> Vec<String> {
    let pins = Pins::new();
    let mut d = m(pins.a.clone(), pins.b.clone());
    let mut out = Vec::with_capacity(ev.len() + 8);
    let mut level = false;
    for (k, e) in ev.iter().enumerate() {
        pins.set(level, k);
        d.polls(level, e.dt, &mut out);
        level = e.e;
    }
    pins.set(level, 0);
    d.polls(level, 2, &mut out);
    out
}

fn buffer<P: DecoderBuilder<u32>>(ev: &[Ev]) -> [String; 4]
where
    P::Cmd: Debug + 'static,
{
    let buf: Vec<u32> = ev.iter().map(|e| e.dt as u32).collect();
    let mut a: BufferInputReceiver<P> = BufferInputReceiver::new();
    let mut b: BufferInputReceiver<P> = Default::default();
    let mut c: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(1_000_000);
    let mut d: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(123_456);
    let sh = |v: Vec<P::Cmd>| format!("{v:?}");
    [
        sh(c.iter(&buf).collect()),
        sh(a.iter(&buf).collect()),
        sh(b.iter(&buf).collect()),
        sh(d.iter_with::<P, u32, P::Cmd>(1_000_000, &buf).collect()),
    ]
}

fn main() {
    silence_panics();
    let a = Args::get();
    let t = Tables::load(a.opt("--tables").unwrap());
    let rec = a.opt("--record").is_some();
    let per = a.num("--n", 4);
    let cs = cases();
    let n = cs.len() as u64 * per;
    drive("builder", &a, if rec { a.num("--record", 10).min(n) } else { n }, if rec { 1 } else { 8 }, move |k, r, o| {
        let c = &cs[(k % cs.len() as u64) as usize];
        let p = &t.protos[c.p];
        if rec {
            // short
        } else if k < cs.len() as u64 {
            o.add("tlc_traces", 1);
        }
        let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
        // frames at the right frequency, sometimes at the one the builder starts with
        // (and at any where nothing can be heard)
        let own = if t.freqs.contains(&c.f) { c.f } else { *r.pick(&t.freqs) };
        let f = if r.chance(1, 6) { 1_000_000 } else { own };
        let ev = history(p, f, p.max_hi(own) * 2, !r.chance(1, 4), if rec { 1 } else { 5 }, r);
        let ev = &ev[..ev.len().min(if rec { 90 } else { 100_000 })];
        o.seen(c.calls, ev);
        for way in 0..2 {
            let got = o.call(|| run(c.built, ev, way));
            let want = o.call(|| run(c.direct, ev, way));
            o.add("events", ev.len() as u64);
            o.add("results", want.as_ref().map_or(0, |w| w.iter().filter(|x| *x != "Ok(None)").count() as u64));
            if got != want {
                let what = match (&got, &want) {
                    (Ok(g), Ok(w)) => {
                        let i = (0..g.len()).find(|i| g[*i] != w[*i]).unwrap();
                        format!("edge {i}: {} instead of {}; edges {}", g[i], w[i], show_ev(&ev[..=i]))
                    }
                    _ => format!("{got:?} / {want:?}"),
                };
                o.viol(format!("builder calls {} do not give the receiver with {}: {what}", c.calls, c.settings));
                return;
            }
            if rec {
                let (g, w) = (got.unwrap(), want.unwrap());
                println!(
                    "REC {{\"calls\":{},\"s\":{},\"got\":[{}],\"want\":[{}]}}",
                    c.calls,
                    c.settings,
                    g.iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
                    w.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")
                );
            }
        }
        if rec {
            return;
        }
        // polled
        let f = c.f.min(if k % 7 == 0 { u32::MAX } else { 44_100 });
        if f == c.f && ev.iter().map(|e| e.dt).sum::<u64>() < 2_000_000 {
            let got = o.call(|| run_poll(c.built_poll, ev));
            let want = o.call(|| run_poll(c.direct_poll, ev));
            if got != want {
                o.viol(format!("builder calls {} do not give the poll receiver with {}: {got:?} instead of {want:?}; levels {}", c.calls, c.settings, show_ev(ev)));
                return;
            }
            o.add("polled", 1);
        }
        // buffers: 1 MHz unless told otherwise
        if t.freqs.contains(&1_000_000) {
            let ev = history(p, 1_000_000, 1 << 22, true, 4, r);
            let got = o.call(|| with_proto!(c.p, P => buffer::<P>(&ev)));
            if !matches!(&got, Ok(x) if x.iter().all(|y| *y == x[0])) {
                o.viol(format!("buffer receivers (with 1 MHz; new; default; iter_with 1 MHz) give {got:?}: {}", show_ev(&ev)));
                return;
            }
            o.add("buffers", 1);
        }
    });
}
// the builder is generic over these
#[allow(unused)]
fn _uses<M: InfraMonotonic>(_: Builder<(), NoPin, M, ()>, _: Button<rnec::SamsungTv>) {}
