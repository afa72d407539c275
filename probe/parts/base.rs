// Behaviours of the specification through the protocols at hand
use core::fmt::Debug;
use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::{Protocol, ProtocolId};
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use infrared::receiver::{BufferInputReceiver, Builder, DecoderBuilder, DecodingError, Error, MultiReceiver, NoPin, PeriodicPoll, ProtocolDecoder, Receiver, State};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Status};

pub type Edge = (bool, u32);
/// A way to receive, whether it keeps only the commands, and what it said
pub type Row = (&'static str, bool, Vec<String>);
pub fn text(mut x: Vec<u32>) -> String {
    while x.len() > 1 && *x.last().unwrap() == 0 {
        x.pop();
    }
    format!("c{}", x.iter().map(|y| y.to_string()).collect::<Vec<_>>().join("."))
}
pub fn wrong(e: DecodingError) -> String {
    match e {
        DecodingError::Address => "e0".into(),
        DecodingError::Data => "e1".into(),
        _ => "e9".into(),
    }
}
pub fn show<C>(r: Result<Option<C>, DecodingError>, v: fn(&C) -> Vec<u32>) -> String {
    match r {
        Ok(None) => "-".to_string(),
        Ok(Some(c)) => text(v(&c)),
        Err(e) => wrong(e),
    }
}
pub fn fits_poll(f: u32, ev: &[Edge]) -> bool {
    f <= 40_000 && alternate(ev) && ev.iter().all(|e| e.1 > 0 && e.1 < 1_000_000)
}
pub fn short(ev: &[Edge]) -> bool {
    ev.iter().map(|e| e.1 as u64).sum::<u64>() < 1 << 31
}
pub fn alternate(ev: &[Edge]) -> bool {
    ev.iter().enumerate().all(|(k, e)| e.0 == (k % 2 == 0))
}
pub fn polled(ev: &[Edge], mut poll: impl FnMut(bool) -> String) -> Vec<String> {
    let mut level = false;
    let mut out = vec![];
    for e in ev {
        for k in 0..e.1 {
            let r = poll(level);
            if k == 0 {
                out.push(r);
            } else if r != "-" {
                out.push(format!("extra {r}"));
            }
        }
        level = e.0;
    }
    out.push(poll(level));
    out.remove(0);
    out
}
pub fn run<P: DecoderBuilder<u32> + DecoderBuilder<u64>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![];
    let mut rx: Receiver<P> = Receiver::new(f);
    rows.push(("event", false, ev.iter().map(|e| show(rx.event(e.1, e.0), v)).collect()));
    let mut rx: Receiver<P, NoPin, u64> = Receiver::with_input(f, NoPin);
    rows.push(("event, u64", false, ev.iter().map(|e| show(rx.event_edge(e.1 as u64, e.0), v)).collect()));
    let mut rx: Receiver<P> = infrared::receiver().protocol::<P>().frequency(f).build();
    let mut t = 0u32;
    if short(ev) {
    rows.push(("event_instant", false, ev.iter().map(|e| {
        t = t.wrapping_add(e.1);
        show(rx.event_instant(t, e.0), v)
    }).collect()));
    }
    let mut rx: Receiver<P, NoPin, u64> = Builder::default().frequency(f).monotonic::<u64>().protocol::<P>().build();
    let mut t = 0u64;
    rows.push(("event_instant, u64", false, ev.iter().map(|e| {
        t += e.1 as u64;
        show(rx.event_instant(t, e.0), v)
    }).collect()));
    let mut d = <P as DecoderBuilder<u32>>::build(f);
    rows.push(("event_total", false, ev.iter().map(|e| show(d.event_total(e.0, e.1), v)).collect()));
    let mut d = <P as DecoderBuilder<u64>>::build(f);
    rows.push(("decoder", false, ev.iter().map(|e| match d.event(e.0, e.1 as u64) {
        State::Idle | State::Receiving => "-".to_string(),
        State::Done => {
            let c = d.command();
            d.reset();
            show(Ok(c), v)
        }
        State::Error(e) => {
            d.reset();
            wrong(e)
        }
    }).collect()));
    let s: &PulseSpans<u64> = d.spans();
    let _: (Option<usize>, bool) = (s.get::<usize>(17), s.check_overlaps());
    if alternate(ev) {
        let b: Vec<u32> = ev.iter().map(|e| e.1).collect();
        let w: Vec<u64> = ev.iter().map(|e| e.1 as u64).collect();
        let mut rx: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(f);
        rows.push(("iter", true, rx.iter(&b).map(|c| text(v(&c))).collect()));
        rows.push(("iter_with", true, rx.iter_with::<P, u64, P::Cmd>(f, &w).map(|c| text(v(&c))).collect()));
        if f == 1_000_000 {
            let mut rx: BufferInputReceiver<P, u64> = Default::default();
            rows.push(("iter, u64", true, rx.iter(&w).map(|c| text(v(&c))).collect()));
            let mut rx: BufferInputReceiver<P> = BufferInputReceiver::new();
            rows.push(("iter, default frequency", true, rx.iter(&b).map(|c| text(v(&c))).collect()));
        }
    }
    if fits_poll(f, ev) {
        let mut po: PeriodicPoll<P> = PeriodicPoll::new(f);
        rows.push(("poll", false, polled(ev, |l| show(po.poll(l), v))));
        let mut po: PeriodicPoll<P> = infrared::receiver().frequency(f).protocol::<P>().build_polled();
        rows.push(("poll_base", false, polled(ev, |l| show(po.poll_base(l), v))));
        let mut po: PeriodicPoll<P> = PeriodicPoll::with_input(f, NoPin);
        rows.push(("poll again", false, polled(ev, |l| show(po.poll(l), v))));
    }
    rows
}
pub fn any_text(c: &AnyCommand) -> String {
    format!("{:?} {} {} {} {}", c.protocol, c.raw, c.address, c.command, c.repeat)
}
/// The same through receivers of two and more, in generic form
pub fn run_multi<P: DecoderBuilder<u32> + DecoderBuilder<u64>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row>
where
    P::Cmd: Into<AnyCommand>,
{
    let mut rx: Receiver<P> = Receiver::new(f);
    let mut m2: MultiReceiver<2, (P, P), NoPin> = MultiReceiver::new(f, NoPin);
    let mut m3: MultiReceiver<3, (P, P, P), NoPin, u64> = MultiReceiver::new(f, NoPin);
    let mut m4: MultiReceiver<4, (P, P, P, P), NoPin> = MultiReceiver::new(f, NoPin);
    let mut m5: MultiReceiver<5, (P, P, P, P, P), NoPin, u64> = MultiReceiver::new(f, NoPin);
    let mut m6: MultiReceiver<6, (P, P, P, P, P, P), NoPin> = MultiReceiver::new(f, NoPin);
    for e in ev {
        let w: Option<String> = rx.event(e.1, e.0).unwrap_or_default().map(|c| any_text(&c.into()));
        let mut got: Vec<Option<String>> = vec![];
        let mut put = |x: &[Option<AnyCommand>]| got.extend(x.iter().map(|y| y.as_ref().map(any_text)));
        put(&m2.event_generic(e.1, e.0));
        put(&m3.event_generic(e.1 as u64, e.0));
        put(&m4.event_generic(e.1, e.0));
        put(&m5.event_generic(e.1 as u64, e.0));
        assert!(got.iter().all(|g| *g == w), "multi: {got:?} instead of {w:?}");
        let got: Vec<String> = m6.event_generic_iter(e.1, e.0).map(|c| any_text(&c)).collect();
        assert_eq!(got, vec![w.clone(); 6].into_iter().flatten().collect::<Vec<_>>(), "multi");
    }
    vec![]
}
pub fn traits<T: Debug>() {}
pub fn value<T: Debug + Copy + Clone + PartialEq>() {}
pub fn api_base() {
    for n in 0..=255u8 {
        let id = ProtocolId::from(n);
        assert!(id == ProtocolId::Unknown || id as u8 == n);
    }
    let ids = [ProtocolId::Nec, ProtocolId::Nec16, ProtocolId::NecSamsung, ProtocolId::NecApple, ProtocolId::Rc5, ProtocolId::Rc6,
               ProtocolId::Sbp, ProtocolId::Denon];
    assert!(ids.iter().all(|i| ProtocolId::from(*i as u8) == *i && *i != ProtocolId::Unknown));
    let all = [DecodingError::Address, DecodingError::Data, DecodingError::Validation, DecodingError::RemoteControlError];
    let up: Vec<Error<u8>> = all.iter().map(|e| Error::from(*e)).collect();
    assert_eq!(up, vec![Error::Address, Error::Data, Error::Validation, Error::RemoteControlError]);
    assert!(!up.contains(&Error::Hal(3)));
    let _ = (State::Idle, State::Receiving, State::Done, State::Error(DecodingError::Data));
    value::<State>();
    value::<Status>();
    value::<Error<u8>>();
    traits::<AnyCommand>();
    assert_eq!(Status::default(), Status::Idle);
    let _ = (Status::Transmit(true), Status::Error);
    let mut s: PulsedataSender<96> = PulsedataSender::new();
    assert_eq!((s.tick(0), s.tick(1), s.buffer().len()), (Status::Idle, Status::Idle, 0));
    s.reset();
    // windows of one's own
    let s = PulseSpans::<u32>::new(1_000_000, &[100, 200, 0, 0, 0, 0, 0, 0], &[10, 10, 0, 0, 0, 0, 0, 0]);
    assert_eq!([89, 90, 110, 111, 180, 221].map(|d| s.get::<usize>(d)), [None, Some(0), Some(0), None, Some(1), None]);
    assert!(!s.check_overlaps());
    let s = PulseSpans::<u64>::new(1_000_000, &[100, 110, 0, 0, 0, 0, 0, 0], &[10, 10, 0, 0, 0, 0, 0, 0]);
    assert!(s.check_overlaps());
    assert_eq!(<u32 as InfraMonotonic>::checked_sub(u32::MAX, 6), Some(u32::MAX - 6));
    assert_eq!(<u64 as InfraMonotonic>::checked_sub(5, 3), Some(2));
    assert_eq!(<u32 as InfraMonotonic>::saturating_add(u32::MAX, 2), u32::MAX);
    let _ = (<u32 as InfraMonotonic>::ZERO_INSTANT, <u64 as InfraMonotonic>::ZERO_DURATION);
}
/// The levels of a sender, tick by tick, as edges
pub fn edges(levels: &[bool]) -> Vec<Edge> {
    let mut ev = vec![];
    let (mut level, mut since) = (false, 0);
    for l in levels {
        if *l != level {
            ev.push((*l, since));
            level = *l;
            since = 0;
        }
        since += 1;
    }
    ev
}
/// Sent and received again at 40 kHz
pub fn hear<P: DecoderBuilder<u32>>(levels: &[bool]) -> P::Cmd {
    let mut rx: Receiver<P> = Receiver::new(40_000);
    let mut got: Vec<P::Cmd> = edges(levels).iter().filter_map(|e| rx.event(e.1, e.0).expect("sent frames have no errors")).collect();
    assert_eq!(got.len(), 1, "commands received");
    got.pop().unwrap()
}
pub fn send<P: ProtocolEncoder<40_000> + DecoderBuilder<u32>>(c: &P::Cmd, v: fn(&P::Cmd) -> Vec<u32>) {
    let mut s: PulsedataSender<128> = PulsedataSender::new();
    s.load_command::<P, 40_000>(c);
    let mut raw = [0; 128];
    let n = P::encode(c, &mut raw);
    assert_eq!(&raw[..n], s.buffer());
    let mut levels = vec![];
    for t in 0..100_000 {
        let st = s.tick(t);
        assert!(st != Status::Error);
        levels.push(st == Status::Transmit(true));
        if t > 0 && st == Status::Idle {
            break;
        }
    }
    // the frame, with silence after it
    assert_eq!(v(&hear::<P>(&levels)), v(c));
    s.reset();
    assert_eq!(s.buffer().len(), 0);
}
pub fn addr<C: AddressCommand + Command>(a: u32, c: u32) -> Option<(u32, u32)>
where
    AnyCommand: From<C>,
{
    let x = C::create(a, c)?;
    let (p, raw, r) = (C::ID, x.raw(), x.is_repeat());
    let y = (x.address(), x.command());
    let g = AnyCommand::from(x);
    assert_eq!((g.address, g.command, g.protocol, g.raw, g.repeat), (y.0, y.1, p, raw, r));
    Some(y)
}
