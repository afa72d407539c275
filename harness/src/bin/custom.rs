//! Receivers of a protocol of the user's own (spec/IrCustom.tla).  Its decoder
//! answers what it is told to and writes down what it is given.
//!
//!   custom KINDS [--cases FILE | --n N | --record N]
use harness::drive::*;
use harness::recv::{de, MonoX, Pin, PinErr};
use harness::util::*;
use harness::R;
use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::receiver::time::{InfraMonotonic, PulseSpans, Span};
use infrared::receiver::{
    BufferInputReceiver, DecoderBuilder, DecodingError, Error, MultiReceiver, NoPin, ProtocolDecoder, State,
};
use infrared::{PeriodicPoll, Protocol, ProtocolId, Receiver};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::sync::Arc;

// ------------------------------------------------------- the user's protocol
#[derive(Default, Clone)]
struct Slot {
    answers: VecDeque<i64>,
    log: Vec<(bool, u64)>,
    /// resets since the last event
    resets: u32,
    freq: u32,
    built: u32,
    bad: Option<String>,
}
thread_local! { static TAPE: RefCell<Vec<Slot>> = RefCell::new(vec![Slot::default(); 6]); }
fn tape<T>(k: usize, f: impl FnOnce(&mut Slot) -> T) -> T {
    TAPE.with(|t| f(&mut t.borrow_mut()[k]))
}
fn complain(k: usize, s: &str) {
    tape(k, |t| {
        t.bad.get_or_insert(s.to_string());
    })
}

struct Own<const K: usize>;
#[derive(Debug, Clone, Copy, PartialEq)]
struct OwnCmd<const K: usize>(u32);
impl<const K: usize> Protocol for Own<K> {
    type Cmd = OwnCmd<K>;
}
impl<const K: usize> Command for OwnCmd<K> {
    fn is_repeat(&self) -> bool {
        self.0 % 2 == 1
    }
}
const IDS: [ProtocolId; 6] =
    [ProtocolId::Unknown, ProtocolId::Rc6, ProtocolId::Denon, ProtocolId::Nec, ProtocolId::Sbp, ProtocolId::NecApple];
impl<const K: usize> AddressCommand for OwnCmd<K> {
    const ID: ProtocolId = IDS[K];
    fn raw(&self) -> u64 {
        ((self.0 as u64) << 40) | (0xABCD << 8) | K as u64
    }
    fn address(&self) -> u32 {
        self.0.wrapping_mul(70_001) ^ 0xF000_0000
    }
    fn command(&self) -> u32 {
        self.0
    }
    fn create(_: u32, _: u32) -> Option<Self> {
        None
    }
}
/// Another output type
struct Wrap<const K: usize>(OwnCmd<K>);
impl<const K: usize> From<OwnCmd<K>> for Wrap<K> {
    fn from(c: OwnCmd<K>) -> Self {
        Wrap(c)
    }
}

struct OwnDecoder<const K: usize, M: InfraMonotonic> {
    spans: PulseSpans<M>,
    at: State,
    cmd: Option<u32>,
}
impl<const K: usize, M: MonoX> DecoderBuilder<M> for Own<K> {
    type Decoder = OwnDecoder<K, M>;
    fn build(freq: u32) -> Self::Decoder {
        tape(K, |t| {
            t.freq = freq;
            t.built += 1;
            t.resets = 1;
        });
        OwnDecoder {
            spans: PulseSpans::new(1_000_000, &[0; 8], &[0; 8]),
            at: State::Idle,
            cmd: None,
        }
    }
}
impl<const K: usize, M: MonoX> ProtocolDecoder<Own<K>, M> for OwnDecoder<K, M> {
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        if !matches!(self.at, State::Idle | State::Receiving) {
            complain(K, "an event after the end without a reset");
        }
        let a = tape(K, |t| {
            t.log.push((edge, M::ticks(dt)));
            t.resets = 0;
            t.answers.pop_front()
        });
        self.cmd = None;
        self.at = match a {
            None => {
                complain(K, "an event too many");
                State::Idle
            }
            Some(0) => State::Idle,
            Some(1) => State::Receiving,
            Some(2) => State::Done,
            Some(3) => State::Error(DecodingError::Address),
            Some(4) => State::Error(DecodingError::Data),
            Some(5) => State::Error(DecodingError::Validation),
            Some(6) => State::Error(DecodingError::RemoteControlError),
            Some(v) => {
                self.cmd = Some((v - 10) as u32);
                State::Done
            }
        };
        self.at
    }
    fn command(&self) -> Option<OwnCmd<K>> {
        self.cmd.map(OwnCmd)
    }
    fn reset(&mut self) {
        if matches!(self.at, State::Idle | State::Receiving) && tape(K, |t| t.resets) == 0 {
            complain(K, "reset in the middle of a frame");
        }
        tape(K, |t| t.resets += 1);
        self.at = State::Idle;
        self.cmd = None;
    }
    fn spans(&self) -> &PulseSpans<M> {
        &self.spans
    }
}

// ---------------------------------------------------------- the user's clock
/// A 16 bit counter that wraps
struct Own16;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Tick(u16);
impl core::ops::Add<u32> for Tick {
    type Output = Tick;
    fn add(self, d: u32) -> Tick {
        Tick(self.0.wrapping_add(d as u16))
    }
}
impl core::ops::Sub<u32> for Tick {
    type Output = Tick;
    fn sub(self, d: u32) -> Tick {
        Tick(self.0.wrapping_sub(d as u16))
    }
}
impl core::ops::Sub<Tick> for Tick {
    type Output = u32;
    fn sub(self, o: Tick) -> u32 {
        self.0.wrapping_sub(o.0) as u32
    }
}
impl InfraMonotonic for Own16 {
    type Instant = Tick;
    type Duration = u32;
    const ZERO_INSTANT: Tick = Tick(0);
    const ZERO_DURATION: u32 = 0;
    fn checked_sub(a: Tick, b: Tick) -> Option<u32> {
        let d = a - b;
        if d < 32768 {
            Some(d)
        } else {
            None
        }
    }
    fn create_span(freq: u32, p: u32, t: u32) -> Span<u32> {
        Span::<u32>::scaled(p, freq, t)
    }
}
impl MonoX for Own16 {
    const NAME: &'static str = "own16";
    const MAX: u64 = 65535;
    fn dur(t: u64) -> u32 {
        t as u32
    }
    fn inst(t: u64) -> Tick {
        Tick(t as u16)
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
}

// ------------------------------------------------------------------ outcomes
/// An output type and the value of the command it carries
trait Val1 {
    fn val(&self, k: usize) -> i64;
}
impl<const K: usize> Val1 for OwnCmd<K> {
    fn val(&self, _: usize) -> i64 {
        10 + self.0 as i64
    }
}
impl<const K: usize> Val1 for Wrap<K> {
    fn val(&self, _: usize) -> i64 {
        10 + (self.0).0 as i64
    }
}
impl Val1 for AnyCommand {
    fn val(&self, k: usize) -> i64 {
        let v = self.command;
        let same = self.protocol == IDS[k]
            && self.raw == (((v as u64) << 40) | (0xABCD << 8) | k as u64)
            && self.address == v.wrapping_mul(70_001) ^ 0xF000_0000
            && self.repeat == (v % 2 == 1);
        if same {
            10 + v as i64
        } else {
            9 // some other command
        }
    }
}
fn err(e: DecodingError) -> i64 {
    match de(e) {
        R::E(k) => 3 + k as i64,
        _ => 0,
    }
}
fn o1<C: Val1>(r: Result<Option<C>, DecodingError>) -> i64 {
    match r {
        Ok(None) => 0,
        Ok(Some(c)) => c.val(0),
        Err(e) => err(e),
    }
}
fn o2<C: Val1>(r: Result<Option<C>, Error<PinErr>>) -> i64 {
    match r {
        Ok(None) => 0,
        Ok(Some(c)) => c.val(0),
        Err(Error::Address) => 3,
        Err(Error::Data) => 4,
        Err(Error::Validation) => 5,
        Err(Error::RemoteControlError) => 6,
        Err(Error::Hal(PinErr(k))) => -(k as i64),
    }
}

/// Something its user calls
trait Front {
    fn call(&mut self, lv: bool, x: u64) -> Vec<i64>;
    fn pin(&self) -> Option<Pin> {
        None
    }
}
struct F<S, G>(S, Option<Pin>, G);
impl<S, G: FnMut(&mut S, bool, u64) -> Vec<i64>> Front for F<S, G> {
    fn call(&mut self, lv: bool, x: u64) -> Vec<i64> {
        if let Some(p) = &self.1 {
            p.low.set(lv);
        }
        (self.2)(&mut self.0, lv, x)
    }
    fn pin(&self) -> Option<Pin> {
        self.1.clone()
    }
}
fn fr<S: 'static>(s: S, p: Option<&Pin>, g: impl FnMut(&mut S, bool, u64) -> Vec<i64> + 'static) -> Box<dyn Front> {
    Box::new(F(s, p.cloned(), g))
}

type O0 = Own<0>;
type F32 = fugit::TimerInstantU32<1_000_000>;
type F64 = fugit::TimerInstantU64<1_000_000>;

const DUR: usize = 9;
fn dur<M: MonoX>(how: usize, f: u32) -> Box<dyn Front> {
    let p = Pin::default();
    let q = Some(&p);
    match how {
        0 => fr(Receiver::<O0, NoPin, M>::new(f), None, |r, e, x| vec![o1(r.event_edge(M::dur(x), e))]),
        1 => fr(Receiver::<O0, NoPin, M>::new(f), None, |r, e, x| vec![o1(r.event(M::dur(x), e))]),
        2 => fr(<O0 as DecoderBuilder<M>>::build(f), None, |d, e, x| vec![o1(d.event_total(e, M::dur(x)))]),
        3 => fr(Receiver::<O0, Pin, M>::with_pin(f, p.clone()), q, |r, _, x| vec![o2(r.event(M::dur(x)))]),
        4 => fr(Receiver::<O0, Pin, M, Wrap<0>>::with_pin(f, p.clone()), q, |r, _, x| vec![o2(r.event(M::dur(x)))]),
        5 => fr(Receiver::<O0, NoPin, M, AnyCommand>::new(f), None, |r, e, x| vec![o1(r.event(M::dur(x), e))]),
        6 => fr(
            infrared::receiver().frequency(f).pin(p.clone()).protocol::<O0>().monotonic::<M>().build(),
            q,
            |r, _, x| vec![o2(r.event(M::dur(x)))],
        ),
        7 => fr(Receiver::<O0, Pin, M, AnyCommand>::with_input(f, p.clone()), q, |r, _, x| {
            // the pin can be got at in between
            let same = r.pin().low.get() == r.pin_mut().low.get();
            vec![if same { o2(r.event(M::dur(x))) } else { 8 }]
        }),
        _ => fr(Receiver::<O0, Pin, M, AnyCommand>::with_input(f, p.clone()), q, |r, e, x| {
            // with a pin, but told the level
            vec![if r.pin().fail.get() == 0 { o1(r.event_edge(M::dur(x), e)) } else { o2(r.event(M::dur(x))) }]
        }),
    }
}
const STAMP: usize = 5;
fn stamp<M: MonoX>(how: usize, f: u32) -> Box<dyn Front> {
    let p = Pin::default();
    let q = Some(&p);
    match how {
        0 => fr(Receiver::<O0, NoPin, M>::new(f), None, |r, e, x| vec![o1(r.event_instant(M::inst(x), e))]),
        1 => fr(Receiver::<O0, Pin, M>::with_pin(f, p.clone()), q, |r, _, x| vec![o2(r.event_instant(M::inst(x)))]),
        2 => fr(Receiver::<O0, NoPin, M, Wrap<0>>::with_input(f, NoPin), None, |r, e, x| {
            vec![o1(r.event_instant(M::inst(x), e))]
        }),
        3 => fr(infrared::receiver().protocol::<O0>().monotonic::<M>().frequency(f).build(), None, |r, e, x| {
            vec![o1(r.event_instant(M::inst(x), e))]
        }),
        _ => fr(Receiver::<O0, Pin, M, AnyCommand>::with_pin(f, p.clone()), q, |r, _, x| {
            vec![o2(r.event_instant(M::inst(x)))]
        }),
    }
}
const POLL: usize = 6;
fn poll(how: usize, f: u32) -> Box<dyn Front> {
    let p = Pin::default();
    let q = Some(&p);
    match how {
        0 => fr(PeriodicPoll::<O0>::new(f), None, |r, e, _| vec![o1(r.poll(e))]),
        1 => fr(PeriodicPoll::<O0, Pin>::with_pin(f, p.clone()), q, |r, _, _| vec![o2(r.poll())]),
        2 => fr(PeriodicPoll::<O0, NoPin, Wrap<0>>::with_input(f, NoPin), None, |r, e, _| vec![o1(r.poll_base(e))]),
        3 => fr(infrared::receiver().pin(p.clone()).protocol::<O0>().frequency(f).build_polled(), q, |r, _, _| {
            vec![o2(r.poll())]
        }),
        4 => fr(PeriodicPoll::<O0, Pin, AnyCommand>::with_input(f, p.clone()), q, |r, _, _| vec![o2(r.poll())]),
        _ => fr(infrared::receiver().protocol::<O0>().frequency(f).build_polled(), None, |r, e, _| vec![o1(r.poll(e))]),
    }
}
const MULTI: usize = 4;
fn sl(a: impl IntoIterator<Item = Option<AnyCommand>>) -> Vec<i64> {
    a.into_iter().enumerate().map(|(k, x)| x.map(|c| c.val(k)).unwrap_or(0)).collect()
}
/// The iterator forms have no empty slots: found by the protocol id
fn it(n: usize, a: impl Iterator<Item = AnyCommand>) -> Vec<i64> {
    let mut v = vec![0; n];
    let mut next = 0;
    for c in a {
        match IDS.iter().position(|i| *i == c.protocol) {
            Some(k) if k >= next && k < n => {
                v[k] = c.val(k);
                next = k + 1;
            }
            _ => {
                v = vec![9; n];
                break;
            }
        }
    }
    v
}
macro_rules! multi_n {
    ($n:expr, $T:ty, $M:ty, $how:expr, $f:expr) => {{
        let p = Pin::default();
        match $how {
            0 => fr(MultiReceiver::<$n, $T, (), $M>::new($f, ()), None, |r, e, x| {
                sl(r.event_generic(<$M as MonoX>::dur(x), e))
            }),
            1 => fr(MultiReceiver::<$n, $T, (), $M>::new($f, ()), None, |r, e, x| {
                let v = it($n, r.event_generic_iter(<$M as MonoX>::dur(x), e));
                v
            }),
            2 => fr(MultiReceiver::<$n, $T, Pin, $M>::new($f, p.clone()), Some(&p), |r, _, x| {
                match r.event(<$M as MonoX>::dur(x)) {
                    Ok(a) => sl(a),
                    Err(e) => vec![-(e.0 as i64); $n],
                }
            }),
            _ => fr(MultiReceiver::<$n, $T, Pin, $M>::new($f, p.clone()), Some(&p), |r, _, x| {
                let v = match r.event_iter(<$M as MonoX>::dur(x)) {
                    Ok(a) => it($n, a),
                    Err(e) => vec![-(e.0 as i64); $n],
                };
                v
            }),
        }
    }};
}
macro_rules! multi_m {
    ($n:expr, $M:ty, $how:expr, $f:expr) => {
        match $n {
            2 => multi_n!(2, (Own<0>, Own<1>), $M, $how, $f),
            3 => multi_n!(3, (Own<0>, Own<1>, Own<2>), $M, $how, $f),
            4 => multi_n!(4, (Own<0>, Own<1>, Own<2>, Own<3>), $M, $how, $f),
            5 => multi_n!(5, (Own<0>, Own<1>, Own<2>, Own<3>, Own<4>), $M, $how, $f),
            _ => multi_n!(6, (Own<0>, Own<1>, Own<2>, Own<3>, Own<4>, Own<5>), $M, $how, $f),
        }
    };
}
const BUF: usize = 5;
fn buffer<M: MonoX>(how: usize, f: u32, dts: &[u64]) -> Vec<i64> {
    let b: Vec<M::Duration> = dts.iter().map(|d| M::dur(*d)).collect();
    let n = dts.len() + 1;
    match how {
        0 => BufferInputReceiver::<O0, M>::with_frequenzy(f).iter(&b).take(n).map(|c| c.val(0)).collect(),
        1 => BufferInputReceiver::<Own<3>, u64>::with_frequenzy(f ^ 5)
            .iter_with::<O0, M, AnyCommand>(f, &b)
            .take(n)
            .map(|c| c.val(0))
            .collect(),
        2 => {
            let mut r = BufferInputReceiver::<O0, M, Wrap<0>>::with_frequenzy(f);
            let mut it = r.iter(&b);
            let mut v = vec![];
            while let Some(c) = it.next() {
                v.push(c.val(0));
                if v.len() > n {
                    break;
                }
            }
            // and it stays at the end
            v.extend(it.next().map(|c| c.val(0)));
            v.extend(it.next().map(|c| c.val(0)));
            v
        }
        3 => {
            // by nth, count and size_hint
            let mut r = BufferInputReceiver::<O0, M>::with_frequenzy(f);
            let mut it = r.iter(&b);
            let mut v = vec![];
            loop {
                let (lo, hi) = it.size_hint();
                let Some(c) = it.nth(0) else { break };
                if lo > n || hi == Some(0) {
                    v.push(9);
                }
                v.push(c.val(0));
                if v.len() > n {
                    break;
                }
            }
            v
        }
        _ => {
            let mut r = BufferInputReceiver::<O0, M, AnyCommand>::with_frequenzy(f);
            let v = r.iter(&b).fold(vec![], |mut v, c| {
                v.push(c.val(0));
                v
            });
            v
        }
    }
}

// --------------------------------------------------------------------- cases
#[derive(Clone, Debug, Default)]
struct Step {
    lv: bool,
    x: u64,
    fail: u32,
    ev: Option<(bool, u64)>,
    ans: Vec<i64>,
    out: Vec<i64>,
}
#[derive(Clone, Debug)]
struct Case {
    kind: String,
    slots: usize,
    ev: Vec<Step>,
}
fn nums(s: &str) -> Vec<i64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
/// "kind slots l:x:fail:e,d:answers:outs ..."
fn parse(l: &str) -> Case {
    let t: Vec<&str> = l.split(' ').collect();
    Case {
        kind: t[0].into(),
        slots: t[1].parse().unwrap(),
        ev: t[2..]
            .iter()
            .map(|s| {
                let v: Vec<&str> = s.split(':').collect();
                let e = nums(v[3]);
                Step {
                    lv: v[0] == "1",
                    x: v[1].parse().unwrap(),
                    fail: v[2].parse().unwrap(),
                    ev: (!e.is_empty()).then(|| (e[0] == 1, e[1] as u64)),
                    ans: nums(v[4]),
                    out: nums(v[5]),
                }
            })
            .collect(),
    }
}
/// Mirror of IrCustom: fills in the event and the outcomes
fn expect(kind: &str, slots: usize, max: u64, ev: &mut [Step]) {
    let (mut prev, mut edge, mut since) = (0u64, false, 0u64);
    for (k, s) in ev.iter_mut().enumerate() {
        if s.fail > 0 {
            s.ev = None;
            s.ans.clear();
            s.out = vec![-(s.fail as i64); slots];
            continue;
        }
        s.ev = match kind {
            "dur" | "multi" => Some((s.lv, s.x)),
            "buf" => Some((k % 2 == 0, s.x)),
            "plain" => Some((s.lv, s.x.saturating_sub(prev))),
            "w16" => {
                let d = (s.x as u16).wrapping_sub(prev as u16);
                Some((s.lv, if d < 32768 { d as u64 } else { 0 }))
            }
            _ => {
                since += 1;
                if s.lv == edge {
                    None
                } else {
                    edge = s.lv;
                    let d = since;
                    since = 0;
                    Some((s.lv, d))
                }
            }
        };
        if let Some(e) = &mut s.ev {
            e.1 = e.1.min(max);
        }
        prev = s.x;
        if s.ev.is_none() {
            s.ans.clear();
        }
        let cmd_only = kind == "buf" || kind == "multi";
        s.out = (0..slots)
            .map(|i| match s.ans.get(i).copied().unwrap_or(0) {
                a if a >= 10 => a,
                a if a >= 3 && !cmd_only => a,
                _ => 0,
            })
            .collect();
    }
}

fn variants(kind: &str) -> Vec<(usize, &'static str)> {
    let ms: &[&str] = match kind {
        "dur" | "buf" => &["u32", "u64", "f32", "f64", "own16"],
        "multi" => &["u32", "f64"],
        "plain" => &["u32", "u64"],
        "w16" => &["own16"],
        _ => &["u32"],
    };
    let n = match kind {
        "dur" => DUR,
        "buf" => BUF,
        "multi" => MULTI,
        "plain" | "w16" => STAMP,
        _ => POLL,
    };
    (0..n).flat_map(|h| ms.iter().map(move |m| (h, *m))).collect()
}
macro_rules! with_m {
    ($m:expr, $M:ident => $b:expr) => {
        match $m {
            "u32" => { type $M = u32; $b }
            "u64" => { type $M = u64; $b }
            "f32" => { type $M = F32; $b }
            "f64" => { type $M = F64; $b }
            _ => { type $M = Own16; $b }
        }
    };
}
fn make(kind: &str, how: usize, m: &str, slots: usize, f: u32) -> Box<dyn Front> {
    match kind {
        "dur" => with_m!(m, M => dur::<M>(how, f)),
        "plain" | "w16" => with_m!(m, M => stamp::<M>(how, f)),
        "poll" => poll(how, f),
        _ if m == "u32" => multi_m!(slots, u32, how, f),
        _ => multi_m!(slots, F64, how, f),
    }
}

/// One run; the recorded line, or what is wrong
fn run(c: &Case, how: usize, m: &str, f: u32, o: &Out) -> (String, Option<String>) {
    TAPE.with(|t| *t.borrow_mut() = vec![Slot::default(); 6]);
    let mut rec = String::new();
    let mut bad = None;
    let lastbad = |n: usize| (0..n).find_map(|k| tape(k, |t| t.bad.take().map(|s| format!("{s} (decoder {k})"))));
    if c.kind == "buf" {
        let dts: Vec<u64> = c.ev.iter().map(|s| s.x).collect();
        tape(0, |t| t.answers = c.ev.iter().map(|s| s.ans[0]).collect());
        let got = o.call(|| with_m!(m, M => buffer::<M>(how, f, &dts)));
        let want: Vec<i64> = c.ev.iter().map(|s| s.out[0]).filter(|x| *x > 0).collect();
        let log: Vec<(bool, u64)> = c.ev.iter().map(|s| s.ev.unwrap()).collect();
        let (seen, built) = tape(0, |t| (std::mem::take(&mut t.log), t.freq));
        match got {
            Err(e) => return (rec, Some(format!("panic {e}"))),
            Ok(g) => {
                if g != want {
                    bad = Some(format!("yields {g:?} instead of {want:?}"));
                }
                let _ = write!(
                    rec,
                    "{{\"kind\":\"buf\",\"slots\":1,\"ev\":[{}],\"got\":{:?}}}",
                    c.ev.iter()
                        .zip(&seen)
                        .map(|(s, l)| format!("[{},{},0,[[[{},{}]]],[{}],[0],[0]]", s.lv as u8, s.x, l.0 as u8, l.1, s.ans[0]))
                        .collect::<Vec<_>>()
                        .join(","),
                    g
                );
            }
        }
        bad = bad.or(lastbad(1));
        if bad.is_none() && seen != log {
            bad = Some(format!("the decoder was given {seen:?} instead of {log:?}"));
        }
        if bad.is_none() && built != f {
            bad = Some(format!("the decoder was built for {built} Hz instead of {f}"));
        }
        return (rec, bad);
    }
    let mut x = match o.call(|| make(&c.kind, how, m, c.slots, f)) {
        Ok(x) => x,
        Err(e) => return (rec, Some(format!("panic {e}"))),
    };
    for k in 0..c.slots {
        let (fq, n) = tape(k, |t| (t.freq, t.built));
        if fq != f || n == 0 {
            return (rec, Some(format!("decoder {k} built {n} times, for {fq} Hz instead of {f}")));
        }
    }
    let pin = x.pin();
    let mut recs = vec![];
    for (i, s) in c.ev.iter().enumerate() {
        if s.fail > 0 && pin.is_none() {
            continue;
        }
        for k in 0..c.slots {
            tape(k, |t| {
                t.log.clear();
                t.answers = s.ans.get(k).copied().into_iter().collect();
            });
        }
        if let Some(p) = &pin {
            p.fail.set(s.fail);
        }
        let got = match o.call(|| x.call(s.lv, s.x)) {
            Ok(g) => g,
            Err(e) => return (rec, Some(format!("panic {e} in call {i}"))),
        };
        let want: Vec<(bool, u64)> = s.ev.into_iter().collect();
        let mut handed = vec![];
        let mut resets = vec![];
        for k in 0..c.slots {
            let (l, r) = tape(k, |t| (t.log.clone(), t.resets));
            let ended = s.ans.get(k).copied().unwrap_or(0) >= 2;
            if bad.is_none() && l != want {
                bad = Some(format!("call {i}: decoder {k} was given {l:?} instead of {want:?}"));
            }
            if bad.is_none() && s.ev.is_some() && (r > 0) != ended {
                bad = Some(format!("call {i}: decoder {k} was {}reset", if ended { "not " } else { "" }));
            }
            handed.push(l);
            resets.push((s.ev.is_some() && r > 0) as u8);
        }
        bad = bad.or(lastbad(c.slots));
        if bad.is_none() && got != s.out {
            bad = Some(format!("call {i} reports {got:?} instead of {:?}", s.out));
        }
        recs.push(format!(
            "[{},{},{},[{}],{:?},{:?},{:?}]",
            s.lv as u8,
            s.x,
            s.fail,
            handed
                .iter()
                .map(|h| format!("[{}]", h.iter().map(|e| format!("[{},{}]", e.0 as u8, e.1)).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(","),
            s.ans,
            resets,
            got
        ));
        if bad.is_some() {
            break;
        }
    }
    let _ = write!(rec, "{{\"kind\":\"{}\",\"slots\":{},\"ev\":[{}],\"got\":[]}}", c.kind, c.slots, recs.join(","));
    (rec, bad)
}

fn main() {
    silence_panics();
    let a = Args::get();
    let kinds: Vec<String> = a.0[0].split(',').map(|s| s.to_string()).collect();
    let rec = a.opt("--record").is_some();
    let cases: Option<Vec<Case>> = a.opt("--cases").map(|p| {
        std::fs::read_to_string(p).unwrap().lines().map(parse).filter(|c| kinds.contains(&c.kind)).collect()
    });
    let n = match &cases {
        Some(c) => c.len() as u64,
        None if rec => a.num("--record", 100),
        None => a.num("--n", 1000),
    };
    let cases = Arc::new(cases);
    drive("custom", &a, n, if rec { 1 } else { 8 }, move |k, r, o| {
        let f = *r.pick(&[10_000, 38_000, 44_100, 1_000_000, 3_579_545, u32::MAX, 1]);
        let case = match &*cases {
            Some(c) => c[k as usize].clone(),
            None => {
                let kind = r.pick(&kinds).clone();
                let slots = if kind == "multi" { 2 + r.below(5) as usize } else { 1 };
                let long = r.chance(1, 10);
                let len = 1 + r.below(if long { 400 } else { 25 });
                let top = if rec { i32::MAX as u64 } else { u32::MAX as u64 };
                let mut prev = 0u64;
                let calm = r.chance(1, 2);
                let ev = (0..len)
                    .map(|_| {
                        let x = match kind.as_str() {
                            "w16" => match r.below(6) {
                                0 => r.below(65536),
                                1 => prev.wrapping_sub(r.below(300)) & 65535,
                                _ => (prev + r.below(33_500)) & 65535,
                            },
                            "plain" => match r.below(6) {
                                0 => r.below(top + 1),
                                1 => prev.saturating_sub(r.below(300)),
                                2 => top,
                                _ => (prev + r.below(5000)).min(top),
                            },
                            _ => match r.below(4) {
                                0 => *r.pick(&[0, 1, top, top - 1, 65535, 65536]),
                                1 => r.below(top + 1),
                                _ => r.below(20_000),
                            },
                        };
                        prev = x;
                        Step {
                            lv: if kind == "poll" && calm { r.chance(1, 12) } else { r.chance(1, 2) },
                            x,
                            fail: if kind != "buf" && r.chance(1, 8) { 1 + r.below(60) as u32 } else { 0 },
                            ans: (0..slots)
                                .map(|_| match r.below(10) {
                                    0..=3 => r.below(2) as i64,
                                    4 => 2,
                                    5 | 6 => 3 + r.below(4) as i64,
                                    _ => 10 + *r.pick(&[0, 1, 5, 255, 65535, 1_000_000]) + r.below(4) as i64,
                                })
                                .collect(),
                            ..Default::default()
                        }
                    })
                    .collect();
                Case { kind, slots, ev }
            }
        };
        let tlc = cases.is_some();
        let mut case = case;
        if tlc {
            // the mirror has to agree with TLC
            let mut ev = case.ev.clone();
            expect(&case.kind, case.slots, u64::MAX, &mut ev);
            for (a, b) in ev.iter().zip(&case.ev) {
                if a.ev != b.ev || a.out != b.out {
                    println!("TOOLERR mirror {a:?} TLC {b:?} in {case:?}");
                    std::process::exit(2);
                }
            }
        } else {
            let (kd, sl) = (case.kind.clone(), case.slots);
            expect(&kd, sl, u64::MAX, &mut case.ev);
        }
        o.distinct.insert(hash(
            &case.ev.iter().flat_map(|s| [s.x * 2 + s.lv as u64, s.fail as u64, s.ans.iter().sum::<i64>() as u64]).collect::<Vec<_>>(),
        ));
        for (how, m) in variants(&case.kind) {
            o.add("runs", 1);
            let (line, bad) = run(&case, how, m, f, o);
            if let Some(b) = bad {
                let upto: Vec<String> = case.ev.iter().map(|s| format!("{}:{}:{}:{:?}", s.lv as u8, s.x, s.fail, s.ans)).collect();
                o.viol(format!(
                    "a protocol of the user's own, front end {}/{how}/{m} at {f} Hz, {} decoders: {b}; level:argument:pin error:answers {}",
                    case.kind,
                    case.slots,
                    upto.join(" ")
                ));
                break;
            }
            if rec && case.ev.len() < 100 && r.chance(1, 4) {
                println!("REC {line}");
            }
        }
        o.add("calls", case.ev.len() as u64);
        if tlc {
            o.add("tlc_traces", 1);
        }
        if k == 3 {
            o.sample = Some(format!("{} {:?}", case.kind, case.ev.iter().take(5).map(|s| (s.lv, s.x, s.fail, &s.ans)).collect::<Vec<_>>()));
        }
    });
}
