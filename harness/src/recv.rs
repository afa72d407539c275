//! The real code of /repo behind one object-safe trait.
use crate::R;
use core::marker::PhantomData;
use fugit::{Duration, Instant};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{
    BufferInputReceiver, DecoderBuilder, DecodingError, Error, NoPin, ProtocolDecoder, State,
};
use infrared::{PeriodicPoll, Protocol, Receiver};
use std::cell::Cell;
use std::rc::Rc;

#[macro_export]
macro_rules! with_proto {
    ($name:expr, $P:ident => $body:expr) => {
        match $name {
            "nec" => { type $P = infrared::protocol::Nec; $body }
            "nec16" => { type $P = infrared::protocol::Nec16; $body }
            "samsung" => { type $P = infrared::protocol::SamsungNec; $body }
            "apple" => { type $P = infrared::protocol::AppleNec; $body }
            "raw" => { type $P = infrared::protocol::NecDebug; $body }
            "sbp" => { type $P = infrared::protocol::Sbp; $body }
            "denon" => { type $P = infrared::protocol::Denon; $body }
            "rc5" => { type $P = infrared::protocol::Rc5; $body }
            "rc6" => { type $P = infrared::protocol::Rc6; $body }
            x => panic!("protocol {x}"),
        }
    };
}

/// Frequencies for which fugit clocks are compiled in
pub const HZ: [u32; 7] = [10_000, 20_000, 38_000, 44_100, 1_000_000, 3_579_545, 48_000_000];

#[macro_export]
macro_rules! with_fugit {
    ($bits:expr, $f:expr, $M:ident => $body:expr) => {
        match ($bits, $f) {
            (32, 10_000) => { type $M = fugit::TimerInstantU32<10_000>; $body }
            (32, 20_000) => { type $M = fugit::TimerInstantU32<20_000>; $body }
            (32, 38_000) => { type $M = fugit::TimerInstantU32<38_000>; $body }
            (32, 44_100) => { type $M = fugit::TimerInstantU32<44_100>; $body }
            (32, 1_000_000) => { type $M = fugit::TimerInstantU32<1_000_000>; $body }
            (32, 3_579_545) => { type $M = fugit::TimerInstantU32<3_579_545>; $body }
            (32, 48_000_000) => { type $M = fugit::TimerInstantU32<48_000_000>; $body }
            (64, 10_000) => { type $M = fugit::TimerInstantU64<10_000>; $body }
            (64, 20_000) => { type $M = fugit::TimerInstantU64<20_000>; $body }
            (64, 38_000) => { type $M = fugit::TimerInstantU64<38_000>; $body }
            (64, 44_100) => { type $M = fugit::TimerInstantU64<44_100>; $body }
            (64, 1_000_000) => { type $M = fugit::TimerInstantU64<1_000_000>; $body }
            (64, 3_579_545) => { type $M = fugit::TimerInstantU64<3_579_545>; $body }
            (64, 48_000_000) => { type $M = fugit::TimerInstantU64<48_000_000>; $body }
            x => panic!("fugit clock {x:?}"),
        }
    };
}

#[macro_export]
macro_rules! with_mono {
    ($mono:expr, $f:expr, $M:ident => $body:expr) => {
        match $mono {
            "u32" => { type $M = u32; $body }
            "u64" => { type $M = u64; $body }
            "f32" => $crate::with_fugit!(32, $f, $M => $body),
            "f64" => $crate::with_fugit!(64, $f, $M => $body),
            // 20 kHz as a period of 50 us
            "f32p" => { type $M = fugit::Instant<u32, 50, 1_000_000>; $body }
            "f64p" => { type $M = fugit::Instant<u64, 50, 1_000_000>; $body }
            x => panic!("clock {x}"),
        }
    };
}

/// Values of a command in the order of Layout(p), then the extra
pub trait Val {
    fn val(&self) -> [u32; 5];
}
impl Val for NecCommand {
    fn val(&self) -> [u32; 5] {
        [self.addr as u32, self.cmd as u32, self.repeat as u32, 0, 0]
    }
}
impl Val for SamsungNecCommand {
    fn val(&self) -> [u32; 5] {
        [self.addr as u32, self.cmd as u32, self.repeat as u32, 0, 0]
    }
}
impl Val for Nec16Command {
    fn val(&self) -> [u32; 5] {
        [self.addr as u32, self.cmd as u32, self.repeat as u32, 0, 0]
    }
}
impl Val for AppleNecCommand {
    fn val(&self) -> [u32; 5] {
        [
            self.command_page as u32,
            self.command as u32,
            self.device_id as u32,
            self.repeat as u32,
            0,
        ]
    }
}
impl Val for NecDebugCmd {
    fn val(&self) -> [u32; 5] {
        [self.bits & 0xFFFF, self.bits >> 16, 0, 0, 0]
    }
}
impl Val for Rc5Command {
    fn val(&self) -> [u32; 5] {
        [
            self.start as u32,
            self.toggle as u32,
            self.addr as u32,
            self.cmd as u32,
            0,
        ]
    }
}
impl Val for Rc6Command {
    fn val(&self) -> [u32; 5] {
        [self.addr as u32, self.cmd as u32, self.toggle as u32, 0, 0]
    }
}
impl Val for SbpCommand {
    fn val(&self) -> [u32; 5] {
        [self.address as u32, self.command as u32, self.valid as u32, 0, 0]
    }
}
impl Val for DenonCommand {
    fn val(&self) -> [u32; 5] {
        [
            (self.bits & 0xFFFF) as u32,
            ((self.bits >> 16) & 0xFFFF) as u32,
            ((self.bits >> 32) & 0xFFFF) as u32,
            (self.bits >> 48) as u32,
            0,
        ]
    }
}

/// Clock types
pub trait MonoX: InfraMonotonic + 'static {
    const NAME: &'static str;
    const MAX: u64;
    fn dur(t: u64) -> Self::Duration;
    fn inst(t: u64) -> Self::Instant;
    fn ticks(d: Self::Duration) -> u64;
}
impl MonoX for u32 {
    const NAME: &'static str = "u32";
    const MAX: u64 = u32::MAX as u64;
    fn dur(t: u64) -> u32 {
        t.min(u32::MAX as u64) as u32
    }
    fn inst(t: u64) -> u32 {
        t as u32
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
}
impl MonoX for u64 {
    const NAME: &'static str = "u64";
    const MAX: u64 = u64::MAX;
    fn dur(t: u64) -> u64 {
        t
    }
    fn inst(t: u64) -> u64 {
        t
    }
    fn ticks(d: u64) -> u64 {
        d
    }
}
impl<const NOM: u32, const DENOM: u32> MonoX for Instant<u32, NOM, DENOM> {
    const NAME: &'static str = "f32";
    const MAX: u64 = u32::MAX as u64;
    fn dur(t: u64) -> Duration<u32, NOM, DENOM> {
        Duration::<u32, NOM, DENOM>::from_ticks(t.min(<Self as MonoX>::MAX) as u32)
    }
    fn inst(t: u64) -> Instant<u32, NOM, DENOM> {
        Instant::<u32, NOM, DENOM>::from_ticks(t as u32)
    }
    fn ticks(d: Duration<u32, NOM, DENOM>) -> u64 {
        d.ticks() as u64
    }
}
impl<const NOM: u32, const DENOM: u32> MonoX for Instant<u64, NOM, DENOM> {
    const NAME: &'static str = "f64";
    const MAX: u64 = u64::MAX;
    fn dur(t: u64) -> Duration<u64, NOM, DENOM> {
        Duration::<u64, NOM, DENOM>::from_ticks(t)
    }
    fn inst(t: u64) -> Instant<u64, NOM, DENOM> {
        Instant::<u64, NOM, DENOM>::from_ticks(t)
    }
    fn ticks(d: Duration<u64, NOM, DENOM>) -> u64 {
        d.ticks()
    }
}

/// Longest duration / time stamp of a clock type
pub fn mono_max(m: &str) -> u64 {
    match m {
        "u32" | "f32" | "f32p" => u32::MAX as u64,
        _ => u64::MAX,
    }
}

pub fn de(e: DecodingError) -> R {
    R::E(match e {
        DecodingError::Address => 0,
        DecodingError::Data => 1,
        DecodingError::Validation => 2,
        DecodingError::RemoteControlError => 3,
    })
}
pub fn res<C: Val>(r: Result<Option<C>, DecodingError>) -> R {
    match r {
        Ok(None) => R::N,
        Ok(Some(c)) => R::C(c.val()),
        Err(e) => de(e),
    }
}
pub fn pres<C: Val, E>(r: Result<Option<C>, Error<E>>) -> R {
    match r {
        Ok(None) => R::N,
        Ok(Some(c)) => R::C(c.val()),
        Err(Error::Address) => R::E(0),
        Err(Error::Data) => R::E(1),
        Err(Error::Validation) => R::E(2),
        Err(Error::RemoteControlError) => R::E(3),
        Err(Error::Hal(_)) => R::E(4),
    }
}

/// Input pin whose level and failures the harness controls
#[derive(Clone, Default)]
pub struct Pin {
    pub low: Rc<Cell<bool>>,
    /// fail the next reads with this code (0: do not fail)
    pub fail: Rc<Cell<u32>>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct PinErr(pub u32);
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = PinErr;
    fn is_high(&self) -> Result<bool, PinErr> {
        self.is_low().map(|x| !x)
    }
    fn is_low(&self) -> Result<bool, PinErr> {
        if self.fail.get() != 0 {
            Err(PinErr(self.fail.get()))
        } else {
            Ok(self.low.get())
        }
    }
}

/// A receiver that is told of edges and durations
pub trait Rx {
    fn ev(&mut self, e: bool, dt: u64) -> R;
}

pub struct Edge<P: DecoderBuilder<M>, M: MonoX>(pub Receiver<P, NoPin, M>);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for Edge<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        res(self.0.event_edge(M::dur(dt), e))
    }
}
pub struct Event<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, NoPin, M>);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for Event<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        res(self.0.event(M::dur(dt), e))
    }
}
/// Time stamps: exact as long as the clock has not passed its end
pub struct Inst<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, NoPin, M>, u64);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for Inst<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        self.1 = self.1.wrapping_add(dt) & M::MAX;
        res(self.0.event_instant(M::inst(self.1), e))
    }
}
pub struct PinEv<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, Pin, M>, Pin);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for PinEv<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        self.1.low.set(e);
        pres(self.0.event(M::dur(dt)))
    }
}
pub struct PinInst<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, Pin, M>, Pin, u64);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for PinInst<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        self.1.low.set(e);
        self.2 = self.2.wrapping_add(dt) & M::MAX;
        pres(self.0.event_instant(M::inst(self.2)))
    }
}
pub struct Total<P: DecoderBuilder<M>, M: MonoX>(P::Decoder, PhantomData<M>);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for Total<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        res(self.0.event_total(e, M::dur(dt)))
    }
}
pub struct Manual<P: DecoderBuilder<M>, M: MonoX>(P::Decoder, PhantomData<M>);
impl<P: DecoderBuilder<M>, M: MonoX> Rx for Manual<P, M>
where
    P::Cmd: Val,
{
    fn ev(&mut self, e: bool, dt: u64) -> R {
        match self.0.event(e, M::dur(dt)) {
            State::Idle | State::Receiving => R::N,
            State::Done => {
                let r = self.0.command().map(|c| R::C(c.val())).unwrap_or(R::N);
                self.0.reset();
                r
            }
            State::Error(e) => {
                self.0.reset();
                de(e)
            }
        }
    }
}

/// A receiver that is given time stamps
pub trait RxI {
    /// Ok(outcome) or the code of the pin error
    fn at(&mut self, e: bool, t: u64) -> Result<R, u32>;
    fn pin(&self) -> Option<&Pin>;
}
pub struct Stamped<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, NoPin, M>);
impl<P: DecoderBuilder<M>, M: MonoX> RxI for Stamped<P, M>
where
    P::Cmd: Val,
{
    fn at(&mut self, e: bool, t: u64) -> Result<R, u32> {
        Ok(res(self.0.event_instant(M::inst(t), e)))
    }
    fn pin(&self) -> Option<&Pin> {
        None
    }
}
pub struct PinStamped<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, Pin, M>, Pin);
impl<P: DecoderBuilder<M>, M: MonoX> RxI for PinStamped<P, M>
where
    P::Cmd: Val,
{
    fn at(&mut self, e: bool, t: u64) -> Result<R, u32> {
        self.1.low.set(e);
        hres(self.0.event_instant(M::inst(t)))
    }
    fn pin(&self) -> Option<&Pin> {
        Some(&self.1)
    }
}
/// A pin driven receiver that is given durations
pub struct PinDur<P: DecoderBuilder<M>, M: MonoX>(Receiver<P, Pin, M>, Pin);
impl<P: DecoderBuilder<M>, M: MonoX> RxI for PinDur<P, M>
where
    P::Cmd: Val,
{
    fn at(&mut self, e: bool, t: u64) -> Result<R, u32> {
        self.1.low.set(e);
        hres(self.0.event(M::dur(t)))
    }
    fn pin(&self) -> Option<&Pin> {
        Some(&self.1)
    }
}
pub fn hres<C: Val>(r: Result<Option<C>, Error<PinErr>>) -> Result<R, u32> {
    match r {
        Err(Error::Hal(PinErr(k))) => Err(k),
        x => Ok(pres(x)),
    }
}

/// A periodic poll receiver
pub trait Poll {
    fn poll(&mut self, level: bool) -> Result<R, u32>;
    /// n polls at this level; the number that gave anything
    fn polls(&mut self, level: bool, n: u64) -> u64;
    fn pin(&self) -> Option<&Pin>;
}
pub struct PlainPoll<P: DecoderBuilder<u32>>(pub PeriodicPoll<P, NoPin>);
impl<P: DecoderBuilder<u32>> Poll for PlainPoll<P>
where
    P::Cmd: Val,
{
    fn poll(&mut self, level: bool) -> Result<R, u32> {
        Ok(res(self.0.poll(level)))
    }
    fn polls(&mut self, level: bool, n: u64) -> u64 {
        let mut k = 0;
        for _ in 0..n {
            k += !matches!(self.0.poll(level), Ok(None)) as u64;
        }
        k
    }
    fn pin(&self) -> Option<&Pin> {
        None
    }
}
pub struct PinPoll<P: DecoderBuilder<u32>>(PeriodicPoll<P, Pin>, Pin);
impl<P: DecoderBuilder<u32>> Poll for PinPoll<P>
where
    P::Cmd: Val,
{
    fn poll(&mut self, level: bool) -> Result<R, u32> {
        self.1.low.set(level);
        hres(self.0.poll())
    }
    fn polls(&mut self, level: bool, n: u64) -> u64 {
        self.1.low.set(level);
        let mut k = 0;
        for _ in 0..n {
            k += !matches!(self.0.poll(), Ok(None)) as u64;
        }
        k
    }
    fn pin(&self) -> Option<&Pin> {
        Some(&self.1)
    }
}
pub fn make_poll(p: &str, f: u32, pin: bool) -> Box<dyn Poll> {
    with_proto!(p, P => {
        if pin {
            let pin = Pin::default();
            Box::new(PinPoll::<P>(PeriodicPoll::with_pin(f, pin.clone()), pin))
        } else {
            Box::new(PlainPoll::<P>(PeriodicPoll::new(f)))
        }
    })
}
/// kind: "stamp", "pinstamp", "pindur"
pub fn make_rxi(p: &str, kind: &str, mono: &str, f: u32) -> Box<dyn RxI> {
    with_proto!(p, P => with_mono!(mono, f, M => match kind {
        "stamp" => Box::new(Stamped::<P, M>(Receiver::new(f))) as Box<dyn RxI>,
        "pinstamp" => {
            let pin = Pin::default();
            Box::new(PinStamped::<P, M>(Receiver::with_pin(f, pin.clone()), pin))
        }
        _ => {
            let pin = Pin::default();
            Box::new(PinDur::<P, M>(Receiver::with_pin(f, pin.clone()), pin))
        }
    }))
}

/// A decoder used directly
pub trait Dec {
    fn event(&mut self, e: bool, dt: u64) -> State;
    fn command(&self) -> R;
    fn reset(&mut self);
    /// Position of the pulse class of a duration, if any
    fn class(&self, dt: u64) -> Option<usize>;
    fn overlaps(&self) -> bool;
}
pub struct Direct<P: DecoderBuilder<M>, M: MonoX>(pub P::Decoder, PhantomData<M>);
impl<P: DecoderBuilder<M>, M: MonoX> Dec for Direct<P, M>
where
    P::Cmd: Val,
{
    fn event(&mut self, e: bool, dt: u64) -> State {
        self.0.event(e, M::dur(dt))
    }
    fn command(&self) -> R {
        self.0.command().map(|c| R::C(c.val())).unwrap_or(R::N)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn class(&self, dt: u64) -> Option<usize> {
        self.0.spans().get::<usize>(M::dur(dt))
    }
    fn overlaps(&self) -> bool {
        self.0.spans().check_overlaps()
    }
}

pub const FRONTS: [&str; 7] = ["edge", "event", "inst", "pin", "pininst", "total", "manual"];

pub fn front<P, M>(front: &str, f: u32) -> Box<dyn Rx>
where
    P: DecoderBuilder<M> + 'static,
    P::Cmd: Val + From<<P as Protocol>::Cmd>,
    M: MonoX,
{
    match front {
        "edge" => Box::new(Edge::<P, M>(Receiver::new(f))),
        "event" => Box::new(Event::<P, M>(Receiver::new(f))),
        "inst" => Box::new(Inst::<P, M>(Receiver::new(f), 0)),
        "pin" => {
            let pin = Pin::default();
            Box::new(PinEv::<P, M>(Receiver::with_pin(f, pin.clone()), pin))
        }
        "pininst" => {
            let pin = Pin::default();
            Box::new(PinInst::<P, M>(Receiver::with_pin(f, pin.clone()), pin, 0))
        }
        "total" => Box::new(Total::<P, M>(P::build(f), PhantomData)),
        "manual" => Box::new(Manual::<P, M>(P::build(f), PhantomData)),
        x => panic!("front end {x}"),
    }
}

/// The commands a buffer receiver finds in a buffer of durations.
/// how: 0 iter, 1 iter_with, 2 a second iter, 3 next() by hand
pub fn buffer<P, M>(f: u32, how: u8, dts: &[u64]) -> Vec<R>
where
    P: DecoderBuilder<M> + 'static,
    P::Cmd: Val,
    M: MonoX,
{
    let buf: Vec<M::Duration> = dts.iter().map(|&d| M::dur(d)).collect();
    if how == 1 {
        // Nothing of the receiver itself matters: neither its resolution, nor its protocol, nor its clock
        let mut a = BufferInputReceiver::<P, M>::with_frequenzy(if f < 500_000 { 1_000_000 } else { 40_000 });
        let mut b = BufferInputReceiver::<infrared::protocol::Denon, u64>::with_frequenzy(f ^ 1);
        if dts.len() % 2 == 0 {
            let _ = a.iter(&buf[..dts.len() / 2]).count();
            return a.iter_with::<P, M, P::Cmd>(f, &buf).map(|c| R::C(c.val())).collect();
        }
        return b.iter_with::<P, M, P::Cmd>(f, &buf).map(|c| R::C(c.val())).collect();
    }
    let mut r = BufferInputReceiver::<P, M>::with_frequenzy(f);
    match how {
        3 => {
            let mut it = r.iter(&buf);
            let mut v = vec![];
            while let Some(c) = it.next() {
                v.push(R::C(c.val()));
                if v.len() > dts.len() {
                    break;
                }
            }
            if let Some(c) = it.next() {
                v.push(R::C(c.val()));
            }
            v
        }
        2 => {
            let _ = r.iter(&buf).count();
            let v = r.iter(&buf).map(|c| R::C(c.val())).take(dts.len() + 1).collect();
            v
        }
        _ => {
            let v = r.iter(&buf).map(|c| R::C(c.val())).take(dts.len() + 1).collect();
            v
        }
    }
}

pub fn mono_ok(mono: &str, f: u32) -> bool {
    match mono {
        "u32" | "u64" => true,
        "f32p" | "f64p" => f == 20_000,
        _ => HZ.contains(&f),
    }
}

pub fn make(p: &str, fe: &str, mono: &str, f: u32) -> Box<dyn Rx> {
    with_proto!(p, P => with_mono!(mono, f, M => front::<P, M>(fe, f)))
}
pub fn make_dec(p: &str, mono: &str, f: u32) -> Box<dyn Dec> {
    with_proto!(p, P => with_mono!(mono, f, M => {
        Box::new(Direct::<P, M>(<P as DecoderBuilder<M>>::build(f), PhantomData))
    }))
}
pub fn make_buffer(p: &str, mono: &str, f: u32, how: u8, dts: &[u64]) -> Vec<R> {
    with_proto!(p, P => with_mono!(mono, f, M => buffer::<P, M>(f, how, dts)))
}
